"""P24: material at a point and along a path, over a stand-in for ROOT's TGeo. TGeo.tla decides."""
from itertools import permutations
from vlib import *
from engine import Check
from pads import tok
BASE = [(1, 0, 0), (3, 4, 0), (1, 2, 2), (2, 3, 6), (4, 4, 7), (1, 4, 8), (5, 12, 0), (2, 6, 9)]
DIRS = sorted({tuple(s * c for s, c in zip(sg, q)) for b in BASE for q in permutations(b) for sg in [(x, y, z) for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)]})
AXIS = [d for d in DIRS if sum(map(abs, d)) == 1]
MATS = ["name", "density", "temp", "press", "rad", "int", "local", "logical", "physical"]
MISSING = ["cell", "B", "E", "region", "tracker", "calo"]
def geometry(rng):
    nm = rng.randrange(1, 6); X = [0, 1, 2, 4, 5, 10]
    m = [[rng.randrange(1, 20), rng.randrange(1, 400), rng.randrange(0, 9), rng.choice(X), rng.choice(X)] for _ in range(nm)]
    h = [2 * rng.randrange(2, 21) for _ in range(3)]; sticky = rng.choice([0, 0, .3, 1])
    n = [{"par": 0, "lo": [-x for x in h], "hi": h, "mat": rng.randrange(1, nm + 1), "st": 0, "node": "world_1", "vol": "world"}]
    def fill(i, depth):
        lo, hi = n[i - 1]["lo"], n[i - 1]["hi"]
        ax = rng.randrange(3); L = hi[ax] - lo[ax]
        if L < 4 or len(n) > 9: return
        cuts = sorted(rng.sample(range(lo[ax], hi[ax] + 1, 2), min(rng.randrange(2, 6), L // 2 + 1)))
        for a, b in zip(cuts, cuts[1:]):
            if rng.random() < .3: continue
            l, u = list(lo), list(hi); l[ax], u[ax] = a, b
            for k in range(3):
                if k != ax and rng.random() < .6 and u[k] - l[k] > 4:
                    l[k], u[k] = sorted(rng.sample(range(l[k], u[k] + 1, 2), 2))
            v = len(n) + 1
            thin = rng.random() < .12
            if thin: u[ax] = l[ax]
            nm1, vn, mt = "n%d" % v, "v%d" % v, rng.randrange(1, nm + 1)
            if rng.random() < .25: nm1 = rng.choice(n)["node"]      # placement names may be used again, and volumes placed again
            if v > 2 and rng.random() < .25: o = rng.choice(n[1:]); vn, mt = o["vol"], o["mat"]
            n.append({"par": i, "lo": l, "hi": u, "mat": mt, "st": int(not thin and rng.random() < sticky), "node": nm1, "vol": vn})
            if depth < 4 and not thin and rng.random() < .6: fill(v, depth + 1)
    if rng.random() < .95: fill(1, 1)
    return {"s": rng.choice([1, 1, 1, 50, 7]), "m": m, "n": n}
def odd(rng, a, b): return rng.randrange(a, b) // 2 * 2 + 1
def point(rng, g):
    x = rng.random(); b = g["n"][0] if x < .3 else rng.choice([n for n in g["n"] if all(a < b for a, b in zip(n["lo"], n["hi"]))])
    p = [odd(rng, b["lo"][k], b["hi"][k]) for k in range(3)]
    if x > .92: k = rng.randrange(3); p[k] = rng.choice([g["n"][0]["lo"][k] - 1, g["n"][0]["hi"][k] + 1, g["n"][0]["hi"][k] + 21])
    return p
def orders(rng, n):
    if rng.random() < .04: return [rng.choice(["BdL", "EdL"])]
    q = ["mats", "vols", "thick"] + [x for x in ("rad", "int") if rng.random() < .7]; rng.shuffle(q)
    return q if n else q[:rng.randrange(1, len(q) + 1)]
def path(rng, g, last):
    if last and rng.random() < .3:
        c = dict(last[-1] if rng.random() < .6 else rng.choice(last)); x = rng.random()
        if x < .3: c["p"], c["n"], c["b"] = c["b"], 0, c["b"]
        elif x < .5: c["d"] = [-v for v in c["d"]]; c["b"] = [a + c["n"] * v for a, v in zip(c["p"], c["d"])]
        elif x < .6: c["n"] = 0; c["b"] = c["p"]
        elif x < .85:   # the way back, from the last odd point of the way
            if any(v % 2 == 0 for v in c["b"]) and c["n"] > 1: c["n"] -= 1; c["b"] = [a + c["n"] * v for a, v in zip(c["p"], c["d"])]
            c["p"], c["b"], c["d"] = c["b"], c["p"], [-v for v in c["d"]]
        if c["n"] == 0: c["d"] = [1, 0, 0]
    else:
        p = point(rng, g); d = list(rng.choice(AXIS if rng.random() < .25 else DIRS)); k = max(map(abs, d))
        n = rng.choice([0, 1, 1, 2, rng.randrange(1, 60 // k + 2)])
        c = {"op": "path", "p": p, "d": d, "n": n, "b": [a + n * v for a, v in zip(p, d)]}
    if any(v % 2 == 0 for v in c["p"]) and c["n"]: return None
    c = dict(c, op="path", h=rng.choice([1, 1, 2]), q=orders(rng, c["n"])); return c
class P24(Check):
    prop = "P24"; driver = "tgeo"; trace = "TGeoTrace"
    assumptions = ["ROOT's TGeo is a stand-in (drivers/tgeo/tgeo_standin.h): boxes nested in each other, one geometry at a time, optionally with ROOT's known tiny steps after entering a volume",
                   "paths start off the faces; lengths are in the units of the geometry"]
    def tok(self, c): return tok(c)
    def histories(self, rng, deep):
        hs, st = behaviours("TGeoMC", "TGeoMCDeep.cfg" if deep else "TGeoMC.cfg"); self.mc_stats(st)
        rng.shuffle(hs); hs = hs[:8000 if deep else 1200]; self.from_spec += len(hs)
        for _ in range(6000 if deep else 500):
            h = []
            for _ in range(rng.choice([1, 1, 1, 2])):
                x = rng.random(); how = 0 if x < .6 else 1 if x < .9 else 2 if x < .95 else 3; file = int(rng.random() < .93); g = geometry(rng)
                h.append({"op": "load", "g": g, "how": how, "file": file})
                if how > 1 or not file: continue
                last = []
                for _ in range(12):
                    if rng.random() < .6:
                        c = path(rng, g, last)
                        if c is None: continue
                        last.append(c); h.append(c)
                    else: h.append({"op": "point", "h": rng.choice([1, 1, 2]), "p": point(rng, g), "q": rng.choice(MATS + ["local", "physical", "logical"]) if rng.random() < .9 else rng.choice(MISSING)})
            hs.append(h)
        return hs
