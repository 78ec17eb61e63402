"""P03-P06 XML round trip, P15 layer stacks, P18 silicon layers: histories for the Detector specification."""
import random
from vlib import *
from engine import Check

CALS = ["EcalBarrel","EcalEndcap","EcalPlug","YokeBarrel","YokeEndcap","YokePlug","HcalBarrel","HcalEndcap","HcalRing","Lcal","LHcal","BeamCal"]
ZPLS = ["VXD","SIT","SET"]
SILICON = ZPLS + ["FTD","SiPlanes","TrackerPlanes"]
SLOTS = CALS + SILICON + ["TPC"]
AUTO = -2000000000
U = 100000                     # one unit of length in fixed point
PI2 = 628319

# ---------------------------------------------------------------- values
def num(rng, lo=-9999 * U, hi=9999 * U):
    w = rng.random()
    if w < .15: v = 0
    elif w < .4: v = rng.randint(-200, 200) * U
    elif w < .7: v = rng.randint(-10 ** 6, 10 ** 6) * 10
    elif w < .9: v = rng.randint(-999999999, 999999999)
    else: v = rng.choice([1, -1, 999999999, -999999999, 10, U, -U])
    return max(lo, min(hi, v))
def pos(rng, hi=9999 * U):
    return abs(num(rng, -hi, hi))
def gt0(rng, hi=3000 * U):
    return max(1, pos(rng, hi))
def rare(rng, some, more, p=.05):
    """mostly few, now and then many"""
    return rng.choice(more if rng.random() < p else some)
def inte(rng):
    return rng.choice([0, 1, 2, -1, 7, 123456, -99999, 2147483647, -2147483648, rng.randint(0, 100)])

# ---------------------------------------------------------------- user parameters
KINDS = ["int","double","string","ints","doubles","strings"]
LONG = ["B" * 300, "many words " * 120 + "end", "<&>\"'" * 90, "x" * 4500]
NAMES = ["", "a", "b", "A", "aa", "a b", "x<y>&z", "q'\"", "10", "9", "name_with_a_rather_long_tail_0123456789", "value", "type", "tab\tin"]
TEXTS = ["", "x", "two words", "three  more words", "<a&b>", "\"quoted\"", "it's \"both'", "a&amp;b", "0", "-1.5e3", "\\", "%d%s", "A" * 60, "t\tb", "\xe9\xfc", "]]>", "<!-- c -->", "&lt;", "a&#x41;b", "&#x", "R&#xzz;D", "&#65;", "AT&T;"]
WORDS = [t for t in TEXTS if t and " " not in t]
def tok_of(rng, k):
    if k.startswith("int"): return str(inte(rng))
    if k.startswith("double"):
        w = rng.random()
        x = rng.choice([0.0, 1.5, -2.25, 1e300, -1e-300, 3e-7, 123456789.0]) if w < .4 else rng.uniform(-1e4, 1e4) if w < .7 else rng.gauss(0, 1) * 10 ** rng.randint(-30, 30)
        return "%.9e" % float("%.9e" % x)
    if k == "string": return rare(rng, TEXTS, LONG, .02)
    return rare(rng, WORDS, LONG[:1] + LONG[2:], .01)
def pars(rng, n=None):
    if n is None: n = rare(rng, [0, 0, 1, 2, 5], [25], .03)
    seen = set(); out = []
    for _ in range(n):
        k = rng.choice(KINDS); nm = rng.choice(NAMES) if n < 20 else rng.choice(NAMES) + str(rng.randrange(50))
        if (k, nm) in seen: continue
        seen.add((k, nm))
        out.append([k, nm, [tok_of(rng, k) for _ in range(1 if not k.endswith("s") else rare(rng, [0, 1, 1, 2, 2, 6], [40, 130], .02))]])
    return out
def allkinds(rng):
    return [[k, "p_" + k, [tok_of(rng, k) for _ in range(1 if not k.endswith("s") else 3)]] for k in KINDS]

# ---------------------------------------------------------------- parts
def layer_vals(rng):
    return [0 if rng.random() < .07 else gt0(rng, 20 * U), pos(rng, 50 * U), pos(rng, 50 * U), rng.choice([0, pos(rng, 10 * U)])]
def differs(a, b):
    return any(abs(x - y) * 500 > abs(x + y) for x, y in zip(a, b))
def cal_layers(rng, start, n, contiguous=True):
    out = []; cur = start; v = layer_vals(rng)
    if rng.random() < .1: v = [v[0], 0, 0, 0]
    pool = []
    for j in range(n):
        if j:
            w = rng.random()
            if w < .5: pass
            elif w < .85 or not pool:
                nv = list(v); q = rng.randrange(4); nv[q] = layer_vals(rng)[q]
                if rng.random() < .3: nv[q] = v[q] + v[q] // 200 + 3        # small but real difference
                if differs(nv, v): v = nv
            else:
                nv = rng.choice(pool)
                if differs(nv, v): v = list(nv)
        pool.append(list(v))
        p = AUTO
        if contiguous:
            if j == 0: p = start if (start != 0 or rng.random() < .5) else AUTO
            elif rng.random() < .2: p = cur
            d = cur if p == AUTO else p
        else:
            if rng.random() < .45: p = num(rng, -3000 * U, 3000 * U)
            d = p if p != AUTO else (cur if j else 0)
        out.append(list(v) + [p]); cur = d + v[0]
    return out
def cal(rng, slot, contiguous=True, n=None):
    t = 0 if slot.endswith("Barrel") else 1 if slot.endswith("Endcap") else rng.choice([0, 1])
    if n is None: n = rare(rng, [0, 1, 2, 3, 8, 40], [130, 300], .02)
    inner = rng.choice([0, pos(rng, 3000 * U)] + [-pos(rng, 3000 * U)] * t)
    L = cal_layers(rng, inner, n, contiguous)
    ext = [inner, pos(rng)] if t == 0 else [pos(rng, 1000 * U), pos(rng), inner]
    return {"k": "Cal", "t": t, "sym": rng.choice([0, 1, 2, 8, 12]), "phi0": num(rng, -7 * U, 7 * U), "ext": ext, "layers": L, "pars": pars(rng)}

def zpl(rng, n=None):
    if n is None: n = rare(rng, [0, 1, 2, 3, 6], [12, 40])
    return {"k": "Zpl", "typ": rng.choice([1, 2, 3]), "shell": [pos(rng) for _ in range(5)],
            "layers": [[rare(rng, range(1, 20), [99, 100, 500])] + [num(rng)] + [num(rng) for _ in range(12)] for _ in range(n)], "pars": pars(rng)}
def ftd(rng, n=None):
    if n is None: n = rare(rng, [1, 2, 4, 7, 9], [16, 40])
    L = []
    for _ in range(n):
        npet = rng.choice([1, 4, 12, 16])
        zpos = gt0(rng, 2500 * U)
        L.append([npet, rng.choice([1, 2, 4, 6]), rng.choice([0, 1]), rng.choice([1, 2]), pos(rng, 1 * U), num(rng, -3 * U, 3 * U), num(rng, -1 * U, 1 * U),
                  zpos, rng.choice([0, rng.randint(0, max(0, zpos - 1))]), rng.choice([1, -1])]
                 + [pos(rng, 900 * U), pos(rng, 5 * U), pos(rng), pos(rng), pos(rng, 900 * U), pos(rng)]
                 + [pos(rng, 900 * U), pos(rng, 5 * U), pos(rng), pos(rng), pos(rng, 900 * U), pos(rng)])
    return {"k": "Ftd", "layers": L, "pars": pars(rng)}
def sens22(rng):
    return [inte(rng)] + [num(rng) for _ in range(9)] + [inte(rng), inte(rng)] + [num(rng), num(rng), num(rng), pos(rng), pos(rng)] + [num(rng) for _ in range(5)]
def sip(rng, n=None, dut=None):
    if n is None: n = rare(rng, [0, 1, 2, 6, 9], [17, 60])
    typ = rng.choice([0, 1]) if dut is None else dut
    # TelescopeWithDUT = 1, TelescopeWithoutDUT = 2 in the interface
    T = [SIP_WITHOUT, SIP_WITH][typ]
    d = [[[inte(rng)] + [num(rng) for _ in range(7)], [inte(rng)] + [num(rng) for _ in range(6)] + [inte(rng), inte(rng)] + [num(rng) for _ in range(8)]]] if typ else []
    return {"k": "Sip", "id": inte(rng), "typ": T, "num": n, "layers": [[[inte(rng)] + [num(rng) for _ in range(10)], sens22(rng)] for _ in range(n)], "dut": d, "pars": pars(rng)}
SIP_WITH, SIP_WITHOUT = 1, 2
def trp(rng, n=None):
    if n is None: n = rare(rng, [0, 1, 2, 5], [12, 30])
    L = []
    ids = [rng.choice([j, inte(rng), 5]) for j in range(n)]
    for j in range(n):
        L.append({"id": ids[j], "info": rng.choice(TEXTS[:8] + [""]),
                  "mat": [{"id": inte(rng), "info": rng.choice(TEXTS[:8] + [""]), "v": [num(rng) for _ in range(10)]} for _ in range(rare(rng, [0, 1, 3], [11]))],
                  "sen": [{"id": inte(rng), "info": rng.choice(TEXTS[:8] + [""]), "v": [num(rng) for _ in range(10)] + [inte(rng), inte(rng)] + [num(rng), num(rng), pos(rng), pos(rng)]} for _ in range(rare(rng, [0, 1, 3], [11]))]})
    return {"k": "Trp", "id": inte(rng), "typ": rng.choice([0, 1, 2, 3]), "num": n, "layers": L, "pars": pars(rng)}

# ---------------------------------------------------------------- pad planes (valid, comfortably inside their parameter ranges)
def lay_rect(rng):
    rows = []
    for _ in range(rare(rng, [1, 2, 5], [25])):
        np = rng.choice([1, 2, 7, 30])
        # pads spread over the width of the plane: the pitch follows from the plane
        rows.append([rng.choice([1, 1, 3]), np, rng.choice([1, 2, 3]) * U // 2 + U, rng.choice([1, 2, 4]) * U, 0, rng.choice([0, 1, 3]) * U // 4, rng.choice([0, 2, 5]) * U // 4])
        rows[-1][4] = rows[-1][3] + rng.choice([0, U // 2, U])
    rep = rng.choice([0, 0, 1, 4])
    left = rng.choice([0, -50, 12]) * U
    return {"k": "rect", "a": [left, left + 300 * U, rng.choice([0, -7, 100]) * U], "n": [rep], "rows": rows}
def lay_fps(rng):
    rmin = rng.choice([10, 300, 386]) * U; rows = rng.choice([1, 2, 20]); h = rng.choice([5, 6, 8]) * U
    rmax = rmin + rows * h + rng.choice([0, U, 3 * U])
    return {"k": "fps", "a": [rmin, rmax, h, rng.choice([2, 3]) * U + 33333, rng.choice([0, U // 10, U // 2 + 1]), rng.choice([PI2, 157080, 100003, 50000])], "n": [rng.choice([0, 0, 1, rows])], "rows": []}
def lay_fpa(rng):
    rmin = rng.choice([10, 300]) * U; n = rng.choice([1, 3, 20])
    lo, hi = rng.choice([(0, PI2), (0, 314159), (-157080, 157080), (-20000, 30000), (50000, 150000)])
    return {"k": "fpa", "a": [rmin, rmin + rng.choice([20, 100, 333]) * U, lo, hi], "n": [n, rng.choice([1, 2, 12, 60])], "rows": []}
def lay_vers(rng):
    rows = []; r0 = rng.choice([100, 500, 1437]) * U
    for _ in range(rare(rng, [1, 2, 4], [20])):
        w = rng.choice([1, 2, 5]) * U; h = rng.choice([4, 7]) * U
        np = rng.choice([2, 5, 20])
        rows.append([np, w, h, rng.choice([0, 3, -4]) * U // 2, rng.choice([0, w - U // 10]), rng.choice([0, h - U // 10]), rng.choice([1, 1, 2, 3])])
    return {"k": "vers", "a": [r0], "n": [], "rows": rows}
LAYS = {1: [lay_rect], 2: [lay_fps, lay_fpa, lay_vers]}
def tpc(rng, single=None, coord=None, kind=None):
    if single is None: single = rng.choice([0, 0, 1])
    if coord is None: coord = rng.choice([1, 2])
    def layout():
        return (kind or rng.choice(LAYS[coord]))(rng)
    p = {"k": "Tpc", "drift": pos(rng), "vel": pos(rng), "coord": coord, "single": single, "mods": [], "pars": pars(rng)}
    if single:
        p["mods"] = [{"id": 0, "ro": pos(rng), "layout": layout(), "off": [0, 0], "z": [], "ang": 0, "bor": 0, "pars": []}]
        return p
    ids = rng.sample(range(0, 200), rare(rng, [1, 2, 3, 7], [12, 40]))
    for i in ids:
        off = [num(rng, -500 * U, 500 * U), num(rng, -500 * U, 500 * U)]
        if coord == 2: off = [pos(rng, 500 * U), rng.randint(-300000, 300000)]
        if rng.random() < .3: off = [0, 0]
        p["mods"].append({"id": i, "ro": pos(rng), "layout": layout(), "off": off, "z": [] if rng.random() < .4 else [num(rng, -3000 * U, 3000 * U)],
                          "ang": rng.choice([0, rng.randint(-300000, 300000), 157080]), "bor": rng.choice([0, U // 2, 3 * U]), "pars": pars(rng)})
    return p

def part(rng, slot):
    return cal(rng, slot) if slot in CALS else zpl(rng) if slot in ZPLS else {"FTD": ftd, "SiPlanes": sip, "TrackerPlanes": trp, "TPC": tpc}[slot](rng)

# ---------------------------------------------------------------- commands
def tok(c):
    o = c["op"]
    if o in ("new", "obsname", "obsfield", "seckeys", "matkeys"): return [o, c["m"]]
    if o in ("name", "obssec", "obsmat"): return [o, c["m"], c["n"]]
    if o == "field": return [o, c["m"], json.dumps(c["v"])]
    if o in ("sec", "mat"): return [o, c["m"], c["n"], json.dumps(c["v"], ensure_ascii=False)]
    if o == "put": return [o, c["m"], c["s"], json.dumps(c["v"], ensure_ascii=False)]
    if o == "mod": return [o, c["m"], c["s"], c["i"], c["part"], c["q"], c["val"]]
    if o == "grow": return [o, c["m"], c["s"], json.dumps(c["v"])]
    if o in ("write", "read"): return [o, c["m"], c["f"]]
    if o == "same": return [o, c["f"], c["g"]]
    if o == "obs": return [o, c["m"], c["s"]]
    if o == "ftd": return [o, c["m"], c["q"], c["i"], c["p"], c["sn"]]
    if o == "trpid": return [o, c["m"], c["i"]]
    raise KeyError(o)

def look(m, slots=SLOTS, secs=(), mats=()):
    q = [{"op": "obsname", "m": m}, {"op": "obsfield", "m": m}, {"op": "seckeys", "m": m}, {"op": "matkeys", "m": m}]
    q += [{"op": "obssec", "m": m, "n": n} for n in secs] + [{"op": "obsmat", "m": m, "n": n} for n in mats]
    return q + [{"op": "obs", "m": m, "s": s} for s in slots]

def roundtrip(m, slots, secs=(), mats=(), twice=True):
    """observe, write, observe (unchanged), read into another registry, observe, write again, same file, read again"""
    h = look(m, slots, secs, mats) + [{"op": "write", "m": m, "f": 1}] + look(m, slots, secs, mats)
    h += [{"op": "read", "m": m + 10, "f": 1}] + look(m + 10, slots, secs, mats)
    if twice:
        h += [{"op": "write", "m": m + 10, "f": 2}, {"op": "same", "f": 1, "g": 2}, {"op": "read", "m": m + 20, "f": 2}] + look(m + 20, slots, secs, mats)
    return h

class XMLCheck(Check):
    driver = "det"; trace = "DetectorTrace"
    def tok(self, c): return tok(c)
    slots = ()
    def spec_part(self, rng, slots):
        """instantiate behaviours of the specification: abstract slots and values become real ones"""
        hs, st = behaviours("DetectorMC", "DetectorMC.cfg")
        self.mc_stats(st)
        rng.shuffle(hs)
        out = []
        for h in hs[:self.nspec]:
            env = {}
            def slot(a):
                if a not in env:
                    free = [s for s in slots if s not in env.values()]
                    env[a] = rng.choice(free or list(slots))
                return env[a]
            val = {}; g = []; live = set(); secs = set()
            for c in h:
                o = c["op"]; c = dict(c)
                if o == "put":
                    s = slot(c["s"]); key = (s, c["v"])
                    if key not in val: val[key] = part(rng, s)
                    c["s"] = s; c["v"] = val[key]
                elif o == "field":
                    if ("F", c["v"]) not in val: val["F", c["v"]] = {"b": [num(rng) for _ in range(3)], "pars": pars(rng)}
                    c["v"] = val["F", c["v"]]
                elif o == "sec":
                    if ("S", c["v"]) not in val: val["S", c["v"]] = pars(rng)
                    c["v"] = val["S", c["v"]]; secs.add(c["n"])
                elif o == "mat":
                    if ("M", c["v"]) not in val: val["M", c["v"]] = [tok_of(rng, "double") for _ in range(5)]
                    c["v"] = val["M", c["v"]]
                g.append(c)
                if "m" in c: live.add(c["m"])
            used = [s for s in env.values()] or [slots[0]]
            for m in sorted(live):
                g += look(m, used, ["a", "b"], ["a", "b"])
            if live: g += [x for m in sorted(live)[:1] for x in ({"op": "write", "m": m, "f": 9}, {"op": "read", "m": 99, "f": 9})] + look(99, used, ["a", "b"], ["a", "b"])
            out.append(g)
        self.from_spec = len(out)
        return out
    nspec = 300

def put(m, s, v): return {"op": "put", "m": m, "s": s, "v": v}

class P03(XMLCheck):
    prop = "P03"
    def histories(self, rng, deep):
        self.nspec = 4000 if deep else 500
        out = self.spec_part(rng, ["EcalBarrel", "VXD"])
        for _ in range(3000 if deep else 250):
            h = [{"op": "new", "m": 1}]; secs = []; mats = []
            if rng.random() < .8: h.append({"op": "name", "m": 1, "n": rng.choice(NAMES)})
            if rng.random() < .8: h.append({"op": "field", "m": 1, "v": {"b": [num(rng) for _ in range(3)], "pars": pars(rng)}})
            for n in rng.sample(NAMES, rng.choice([0, 1, 3, 7])):
                secs.append(n); h.append({"op": "sec", "m": 1, "n": n, "v": pars(rng, rng.choice([0, 1, 4, 12]))})
            if rng.random() < .3:
                secs.append("all"); h.append({"op": "sec", "m": 1, "n": "all", "v": allkinds(rng)})
            for n in rng.sample(NAMES, rng.choice([0, 1, 3, 7])):
                mats.append(n); h.append({"op": "mat", "m": 1, "n": n, "v": [tok_of(rng, "double") for _ in range(5)]})
            s = rng.sample(["EcalBarrel", "FTD", "VXD", "SiPlanes"], rng.choice([0, 1, 2]))
            for x in s: h.append(put(1, x, part(rng, x)))
            rng.shuffle(h[1:])
            out.append(h + roundtrip(1, s, secs, mats, rng.random() < .5))
        return out

class P04(XMLCheck):
    prop = "P04"
    def histories(self, rng, deep):
        self.mc_stats(model_check("DetectorLayersMC", "DetectorLayersMC.cfg")[0])
        self.nspec = 4000 if deep else 500
        out = self.spec_part(rng, CALS)
        def doc(ss):
            h = [{"op": "new", "m": 1}]
            for s in ss: h.append(put(1, s, cal(rng, s)))
            return h + roundtrip(1, CALS, twice=rng.random() < .4)
        for s in CALS: out += [doc([s]) for _ in range(20 if deep else 6)]
        for _ in range(1500 if deep else 100):
            ss = rng.sample(CALS, rng.randint(2, 12)); out.append(doc(ss))
        # run-length patterns: every sequence of equal / changed neighbours
        import itertools
        for n in range(1, 7 if deep else 6):
            for pat in itertools.product([0, 1, 2, 3, 4], repeat=n - 1) if n <= 4 else [tuple(rng.randrange(5) for _ in range(n - 1)) for _ in range(60)]:
                s = rng.choice(CALS); c = cal(rng, s, n=1); v = [U, 2 * U, 3 * U, U // 2]; L = [v + [c["layers"][0][4]]]
                for q in pat:
                    v = list(v)
                    if q: v[q - 1] = v[q - 1] + U
                    L.append(v + [AUTO])
                c["layers"] = L
                out.append([{"op": "new", "m": 1}, put(1, s, c)] + roundtrip(1, [s], twice=False))
        # long runs of equal layers
        for n in (9, 10, 11, 12, 99, 100, 101, 120, 255, 256, 257, 999, 1000, 1001) + ((4095, 4097) if deep else ()):
            for runs in ([n], [1, n], [n, 1], [n, 2, n // 2]) if n < 300 else ([n],):
                s = rng.choice(CALS); c = cal(rng, s, n=1); L = []
                for j, k in enumerate(runs): L += [[U, (2 + j) * U, 3 * U, U // 2, AUTO]] * k
                L[0] = L[0][:4] + [c["layers"][0][4]]; c["layers"] = L
                out.append([{"op": "new", "m": 1}, put(1, s, c)] + roundtrip(1, [s], twice=False))
        return out

class P05(XMLCheck):
    prop = "P05"
    def histories(self, rng, deep):
        self.nspec = 4000 if deep else 500
        out = self.spec_part(rng, SILICON)
        for s in SILICON:
            for _ in range(200 if deep else 30):
                out.append([{"op": "new", "m": 1}, put(1, s, part(rng, s))] + roundtrip(1, [s], twice=rng.random() < .5))
        for _ in range(800 if deep else 60):
            ss = rng.sample(SILICON, rng.randint(2, 6))
            out.append([{"op": "new", "m": 1}] + [put(1, s, part(rng, s)) for s in ss] + roundtrip(1, SILICON, twice=rng.random() < .4))
        return out

class P06(XMLCheck):
    prop = "P06"
    def histories(self, rng, deep):
        self.nspec = 1500 if deep else 100
        out = self.spec_part(rng, ["TPC"])
        for _ in range(1500 if deep else 120):
            out.append([{"op": "new", "m": 1}, put(1, "TPC", tpc(rng))] + roundtrip(1, ["TPC"], twice=rng.random() < .6))
        for c, ks in LAYS.items():
            for kd in ks:
                for single in (0, 1):
                    for _ in range(60 if deep else 8):
                        out.append([{"op": "new", "m": 1}, put(1, "TPC", tpc(rng, single, c, kd))] + roundtrip(1, ["TPC"]))
        return out

class P15(XMLCheck):
    prop = "P15"
    def histories(self, rng, deep):
        self.mc_stats(model_check("DetectorLayersMC", "DetectorLayersMC.cfg")[0])
        self.nspec = 2000 if deep else 200
        out = self.spec_part(rng, CALS)
        for _ in range(8000 if deep else 700):
            h = [{"op": "new", "m": 1}]; ss = rng.sample(CALS, rng.choice([1, 1, 2, 4]))
            for s in ss:
                h += [put(1, s, cal(rng, s, contiguous=rng.random() < .3, n=rng.choice([0, 1, 2, 3, 5, 30, 100]))), {"op": "obs", "m": 1, "s": s}]
            for _ in range(rng.choice([0, 0, 3, 12])):        # layers appended after the stack has been looked at
                s = rng.choice(ss)
                h.append({"op": "grow", "m": 1, "s": s, "v": layer_vals(rng) + [rng.choice([AUTO, AUTO, num(rng, -3000 * U, 3000 * U)])]})
                if rng.random() < .7: h.append({"op": "obs", "m": 1, "s": s})
            out.append(h + [{"op": "obs", "m": 1, "s": s} for s in ss])
        return out

class P18(XMLCheck):
    prop = "P18"
    def histories(self, rng, deep):
        self.nspec = 2000 if deep else 200
        out = self.spec_part(rng, SILICON)
        for _ in range(2000 if deep else 200):
            s = rng.choice(SILICON)
            n = rng.choice([1, 2, 3, 6, 7, 8, 12, 20])
            p = {"FTD": ftd, "SiPlanes": sip, "TrackerPlanes": trp}.get(s, zpl)(rng, n)
            out.append([{"op": "new", "m": 1}, put(1, s, p), {"op": "obs", "m": 1, "s": s}])
        for _ in range(1500 if deep else 200):
            n = rng.choice([1, 2, 5, 6, 7, 8, 10]); p = ftd(rng, n)
            h = [{"op": "new", "m": 1}, put(1, "FTD", p), {"op": "obs", "m": 1, "s": "FTD"}]
            for i in list(range(2 * n)) + [2 * n, 2 * n + 3, -1]:
                d = p["layers"][i % n] if 0 <= i < 2 * n else p["layers"][0]
                for q in ("phi", "maxr", "maxrs", "npet"): h.append({"op": "ftd", "m": 1, "q": q, "i": i, "p": rng.randrange(d[0]), "sn": 1})
                for k in sorted({0, d[0] - 1, rng.randrange(d[0])}):
                    h.append({"op": "ftd", "m": 1, "q": "supz", "i": i, "p": k, "sn": 1})
                    for sn in sorted({1, d[1], d[1] + 1, 0, d[1] // 2, d[1] // 2 + 1}):
                        h.append({"op": "ftd", "m": 1, "q": "senz", "i": i, "p": k, "sn": sn})
            out.append(h)
        for _ in range(600 if deep else 80):
            n = rng.choice([1, 2, 5]); p = sip(rng, n)
            h = [{"op": "new", "m": 1}, put(1, "SiPlanes", p)]
            for _ in range(rng.choice([1, 5, 30])):
                pt = rng.choice([0, 1]); q = rng.randrange(11 if pt == 0 else 22)
                isint = q == 0 or (pt == 1 and q in (10, 11))
                h += [{"op": "mod", "m": 1, "s": "SiPlanes", "i": rng.randrange(n), "part": pt, "q": q, "val": inte(rng) if isint else pos(rng) if q in (15, 16) else num(rng)},
                      {"op": "obs", "m": 1, "s": "SiPlanes"}]
            out.append(h)
        for _ in range(600 if deep else 60):
            p = trp(rng, rng.choice([0, 1, 3, 6])); ids = [l["id"] for l in p["layers"]]
            h = [{"op": "new", "m": 1}, put(1, "TrackerPlanes", p)]
            for i in ids + [rng.choice([-5, 0, 1, 5, 77])]: h.append({"op": "trpid", "m": 1, "i": i})
            out.append(h)
        return out
