"""P01 registry, P02 typed parameters: histories generated from the specification's state graph and at random."""
import math, random
from vlib import *
from engine import Check

SLOTS_CAL = ["EcalBarrel","EcalEndcap","EcalPlug","YokeBarrel","YokeEndcap","YokePlug","HcalBarrel","HcalEndcap","HcalRing","Lcal","LHcal","BeamCal"]
SLOTS_ZPL = ["VXD","SIT","SET"]
SLOTS = SLOTS_CAL + SLOTS_ZPL + ["TPC","FTD","TrackerPlanes","SiPlanes","Point","Distance","BField"]
FWD = ["Lcal","LHcal","BeamCal"]
def kind(s): return "Cal" if s in SLOTS_CAL else "Zpl" if s in SLOTS_ZPL else s

ARGS = {"new": ["o","k","n","bxa"], "setSlot": ["m","s","o"], "getSlot": ["m","s"], "setSec": ["m","n","o"], "getSec": ["m","n"],
        "secKeys": ["m"], "regMat": ["m","o"], "getMat": ["m","n"], "matNames": ["m"], "setName": ["m","n"], "getName": ["m"],
        "bxa": ["o"], "store": ["m"], "destroy": ["m"]}
def tok(c): return [c["op"]] + [c[a] for a in ARGS[c["op"]]]

def ask_all(m, slots, names, objs):
    q = [{"op": "getSlot", "m": m, "s": s} for s in slots]
    for n in names:
        q += [{"op": "getSec", "m": m, "n": n}, {"op": "getMat", "m": m, "n": n}]
    q += [{"op": "secKeys", "m": m}, {"op": "matNames", "m": m}, {"op": "getName", "m": m}, {"op": "store", "m": m}]
    q += [{"op": "bxa", "o": o} for o in objs]
    return q

def random_history(rng, n):
    """random walk over all slots, two registries; objects are registered in one place only"""
    h = []; nid = 0
    reg = {1: {}, 2: {}}; secs = {1: {}, 2: {}}; mats = {1: {}, 2: {}}; up = {1, 2}; cals = []
    names = ["a", "A", "b", "zz", "b2", "with blank", "<&>", "10", "9", "aa"]
    pool = rng.sample(names, 6)
    def new(k, nm="", b=-1):
        nonlocal nid
        nid += 1; h.append({"op": "new", "o": nid, "k": k, "n": nm, "bxa": b})
        if k == "Cal": cals.append(nid)
        return nid
    dead = set()
    for _ in range(n):
        m = rng.choice(sorted(up)); w = rng.random()
        if w < .30:
            s = rng.choice(SLOTS)
            cur = reg[m].get(s, 0)
            x = rng.random()
            if x < .2 and cur: o = cur
            elif x < .3 and s not in FWD: o = 0
            else: o = new(kind(s), "", rng.choice([-1, -1, 0, 7, 14]) if s in SLOTS_CAL else -1)
            if cur and cur != o and cur in cals: cals.remove(cur)
            h.append({"op": "setSlot", "m": m, "s": s, "o": o}); reg[m][s] = o
        elif w < .45:
            nm = rng.choice(pool); cur = secs[m].get(nm, 0); x = rng.random()
            if x < .25 and cur: o = cur
            elif x < .35: o = 0
            else: o = new("Sec")
            h.append({"op": "setSec", "m": m, "n": nm, "o": o})
            if o: secs[m][nm] = o
        elif w < .55:
            nm = rng.choice(pool); o = new("Mat", nm); h.append({"op": "regMat", "m": m, "o": o}); mats[m].setdefault(nm, o)
        elif w < .6:
            h.append({"op": "setName", "m": m, "n": rng.choice(pool + [""])})
        elif w < .605 and len(up) == 2:
            h.append({"op": "destroy", "m": m}); up.discard(m)
            for o in list(reg[m].values()):
                if o in cals: cals.remove(o)
            reg[m] = {}; secs[m] = {}; mats[m] = {}
        elif w < .8:
            s = rng.choice(SLOTS); h.append({"op": "getSlot", "m": m, "s": s})
        elif w < .9:
            h.append({"op": rng.choice(["getSec", "getMat"]), "m": m, "n": rng.choice(pool)})
        elif w < .95:
            h.append({"op": rng.choice(["secKeys", "matNames", "getName", "store"]), "m": m})
        elif cals:
            h.append({"op": "bxa", "o": rng.choice(cals)})
    for m in sorted(up):
        h += ask_all(m, SLOTS, pool, cals if m == min(up) else [])
    for m in sorted(up):
        h.append({"op": "destroy", "m": m})
    return h

def all_pairs(rng):
    """every ordered pair of slots: fill one, look at all; fill the other, look at all (slot independence)"""
    out = []
    for s in SLOTS:
        h = []; nid = 0
        rest = SLOTS[:]; rng.shuffle(rest)
        order = [s] + [t for t in rest if t != s]
        for t in order:
            nid += 1
            h += [{"op": "new", "o": nid, "k": kind(t), "n": "", "bxa": -1}, {"op": "setSlot", "m": 1, "s": t, "o": nid}]
            h += [{"op": "getSlot", "m": 1, "s": u} for u in SLOTS] + [{"op": "getSlot", "m": 2, "s": t}]
        h.append({"op": "destroy", "m": 1})
        out.append(h)
    return out

class P01(Check):
    prop = "P01"; driver = "mgr"; trace = "GearManagerTrace"
    def tok(self, c): return tok(c)
    def histories(self, rng, deep):
        hs, st = behaviours("GearManagerMC", "GearManagerMC%s.cfg" % ("Deep" if deep else ""))
        self.mc_stats(st)
        spec = []
        for h in hs:
            if any(c["op"] == "destroy" for c in h):
                tail = [{"op": "getSlot", "m": 2, "s": s} for s in ("TPC", "Lcal", "EcalPlug")]
            else:
                tail = ask_all(1, SLOTS, ["a", "b"], []) + [{"op": "destroy", "m": 1}]
            spec.append(h + tail)
        rng.shuffle(spec)
        spec = spec[:(20000 if deep else 2500)]
        self.from_spec = len(spec)
        rnd = [random_history(rng, rng.choice([10, 40, 150])) for _ in range(1500 if deep else 150)]
        return spec + all_pairs(rng) + rnd

KINDS = ["int","double","string","ints","doubles","strings"]
PN = ["a", "b", "A", "ab", "", "a b", "x<y>&\"'", "10", "9", "\xe4"]
def rnd_tok(rng, k):
    if k.startswith("int"):
        return str(rng.choice([0, 1, -1, 2147483647, -2147483648, rng.randint(-10**6, 10**6)]))
    if k.startswith("double"):
        x = rng.choice([0.0, -0.0, 1.5, 0.1, 1e300, 5e-324, -2.2250738585072014e-308, rng.uniform(-1e3, 1e3), rng.gauss(0, 1) * 10 ** rng.randint(-20, 20)])
        return "%.17g" % x
    return rng.choice(["", " ", "x", "two words", "tab\there", "line\nfeed", "<a&b>", "\xfc", "A" * 40, "A" * 3000, "1", "-3", "1.5"])
def near(rng, k, t):
    """a value that differs from t as little as possible or a little: overwriting must still store it"""
    if k.startswith("int"):
        return str(max(-2147483648, min(2147483647, int(t) + rng.choice([-1, 1]))))
    if k.startswith("double"):
        x = float(t)
        if x == 0: return rng.choice(["0" if t.startswith("-") else "-0", "%.17g" % 5e-324, "%.17g" % 1e-300])
        y = rng.choice([math.nextafter(x, math.inf), math.nextafter(x, -math.inf), x * (1 + 10.0 ** -rng.randint(3, 15)), x + 10.0 ** -rng.randint(5, 15), -x])
        return "%.17g" % (y if math.isfinite(y) else x)
    return rng.choice([t + " ", " " + t, t.swapcase(), t + "x", t[:-1], t[1:]])
def near_val(rng, k, v):
    v = list(v)
    w = rng.random()
    if v and w < .75 or not k.endswith("s"): i = rng.randrange(len(v)); v[i] = near(rng, k, v[i])
    elif v and w < .82: v.pop()
    elif w < .9: v.append(rnd_tok(rng, k))
    else: v.reverse()
    return v
def rnd_val(rng, k):
    if not k.endswith("s"):
        return [rnd_tok(rng, k)]
    return [rnd_tok(rng, k) for _ in range(rng.choice([0, 1, 2, 5] if rng.random() < .96 else [17, 64, 400]))]

class P02(Check):
    prop = "P02"; driver = "params"; trace = "ParamStoreTrace"
    def tok(self, c):
        if c["op"] in ("new", "drop"): return [c["op"], c["o"]]
        if c["op"] in ("copy", "assign"): return [c["op"], c["o"], c["from"]]
        if c["op"] == "keys": return ["keys", c["o"], c["k"]]
        return [c["op"], c["o"], c["k"], c["n"]] + (c["v"] if c["op"] == "set" else [])
    def ask(self, objs, names):
        return [{"op": "keys", "o": o, "k": k} for o in objs for k in KINDS] + \
            [{"op": "get", "o": o, "k": k, "n": n} for o in objs for k in KINDS for n in names]
    def histories(self, rng, deep):
        hs, st = behaviours("ParamStoreMC", "ParamStoreMC%s.cfg" % ("Deep" if deep else ""))
        self.mc_stats(st)
        rng.shuffle(hs)
        out = []
        for h in hs[:(12000 if deep else 1500)]:
            live = set()
            for c in h:
                (live.discard if c["op"] == "drop" else live.add)(c["o"])
            out.append(h + self.ask(sorted(live), ["a", "b"]))
        self.from_spec = len(out)
        for _ in range(800 if deep else 120):
            h = []; live = []; nid = 0; last = {}; names = rng.sample(PN, rng.choice([2, 4, 7]))
            for _ in range(rng.choice([8, 40, 150])):
                w = rng.random()
                if not live or (w < .06 and len(live) < 5):
                    nid += 1
                    if live and rng.random() < .6: h.append({"op": "copy", "o": nid, "from": rng.choice(live)})
                    else: h.append({"op": "new", "o": nid})
                    live.append(nid)
                elif w < .09: h.append({"op": "assign", "o": rng.choice(live), "from": rng.choice(live)})
                elif w < .11 and len(live) > 1: o = rng.choice(live); live.remove(o); h.append({"op": "drop", "o": o})
                elif w < .6:
                    k = rng.choice(KINDS); n = rng.choice(names)
                    v = near_val(rng, k, last[k, n]) if (k, n) in last and rng.random() < .4 else rnd_val(rng, k)
                    o = rng.choice(live); last[k, n] = v
                    h.append({"op": "set", "o": o, "k": k, "n": n, "v": v})
                    if rng.random() < .3: h.append({"op": "get", "o": o, "k": k, "n": n})
                elif w < .9: h.append({"op": "get", "o": rng.choice(live), "k": rng.choice(KINDS), "n": rng.choice(names)})
                else: h.append({"op": "keys", "o": rng.choice(live), "k": rng.choice(KINDS)})
            out.append(h + self.ask(live, names))
        return out
