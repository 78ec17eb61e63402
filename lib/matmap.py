"""P23: material maps over a stand-in geometry. MatMap.tla decides."""
import random
from vlib import *
from engine import Check
from pads import tok
TURN = 6283185; HALFT = 3141592
def steps(rng): return rng.choice([0, 1, 1, 2, 3, rng.randrange(2, 9)])
def length(rng, pos):
    n = steps(rng); st = rng.choice([50000 * rng.randrange(1, 20), 100000 * rng.randrange(1, 100), 1000000 * rng.randrange(1, 40), rng.randrange(50000, 20000000)])
    x = rng.random()
    lo = (0 if x < .4 else rng.randrange(0, 100000000) if x < .8 else st) if pos else (0 if x < .15 else -st * rng.randrange(0, n + 1) if x < .6 else rng.randrange(-100000000, 100000000))
    return [lo, lo + n * st, n if n or rng.random() < .8 else rng.randrange(1, 4)]
def angle(rng, top):
    n = steps(rng); x = rng.random()
    if x < .4: a, b = 0, top
    elif x < .7: a, b = sorted(rng.sample([0, 785398, 1570796, top // 2, top], 2))
    else: a = rng.randrange(0, top - 400000); b = rng.randrange(a + 300000, top + 1)
    return [a, b if n else a, n]
def grid(rng, coord):
    if coord == 0: return length(rng, 0) + length(rng, 0) + length(rng, 0)
    if coord == 1: return length(rng, 1) + angle(rng, TURN) + length(rng, 0)
    return length(rng, 1) + angle(rng, HALFT) + angle(rng, TURN)
def spoil(rng, g, coord):
    g = list(g); k = rng.randrange(3)
    x = rng.randrange(6)
    if x == 0: g[3 * k + 1] = g[3 * k] - rng.randrange(1, 1000000)
    elif x == 1: g[3 * k + 2] = -rng.randrange(1, 4)
    elif x == 2: g[3 * k + 2] = 0; g[3 * k + 1] = g[3 * k] + rng.randrange(300000, 5000000)
    elif x == 3: coord = rng.choice([3, -1, 7])
    elif x == 4: g[rng.choice([0, 3, 6])] = -rng.randrange(1, 1000)
    else: i = rng.choice([4, 7]); g[i] = rng.choice([TURN, TURN + 1, HALFT, HALFT + 1, 7000000])
    return g, coord
def world(rng): return [[rng.choice([0, rng.randrange(0, 5000000)])] + [rng.choice([0, rng.randrange(-300000, 300001)]) for _ in range(3)] + [rng.randrange(0, 300001) for _ in range(3)] for _ in range(2)]
def coordinate(rng, lo, hi, n):
    if n == 0 and hi > lo and rng.random() < .8: return rng.randrange(lo, hi + 1)
    if hi <= lo or n <= 0: return lo + rng.choice([0, 0, 0, 4, -4])
    st = (hi - lo) // n; k = rng.randrange(n); x = rng.random()
    if x < .3: return lo + (hi - lo) * rng.randrange(n + 1) // n + rng.choice([0, 0, 0, 4, -4])
    if x < .4: return rng.choice([lo, hi]) + rng.choice([0, 0, 4, -4])
    return lo + (hi - lo) * k // n + rng.randrange(st // 20, st - st // 20)
def point(rng, g):
    p = [coordinate(rng, *g[3 * k:3 * k + 3]) for k in range(3)]
    x = rng.random()
    if x < .08: k = rng.randrange(3); p[k] = rng.choice([g[3 * k] - rng.choice([50, 1000, 10000000]), g[3 * k + 1] + rng.choice([50, 1000, 10000000])])
    elif x < .3:
        for k in range(3): st = (g[3 * k + 1] - g[3 * k]) // max(1, g[3 * k + 2]); p[k] = g[3 * k] + (g[3 * k + 1] - g[3 * k]) * rng.randrange(max(1, g[3 * k + 2]) + 1) // max(1, g[3 * k + 2])
    return p
class P23(Check):
    prop = "P23"; driver = "matmap"; trace = "MatMapTrace"
    assumptions = ["the geometry behind the map is a stand-in (smooth material, different in every octant), as the real ones need ROOT or Mokka",
                   "grids of up to 9 x 9 x 9 points with steps of at least 0.05 mm, within 260 mm of the vertex",
                   "points on a plane of the grid may count to the cells on either side"]
    def tok(self, c): return tok(c)
    def histories(self, rng, deep):
        hs, st = behaviours("MatMapMC", "MatMapMCDeep.cfg" if deep else "MatMapMC.cfg"); self.mc_stats(st)
        rng.shuffle(hs); hs = hs[:8000 if deep else 1500]; self.from_spec += len(hs)
        for _ in range(6000 if deep else 700):
            h = []; maps = {}
            if rng.random() < .9: h.append({"op": "world", "m": 0, "c": world(rng)})
            reqs = []
            for m in range(1, rng.choice([1, 1, 2, 3, 5]) + 1):
                if reqs and rng.random() < .4:
                    g, coord = rng.choice(reqs); x = rng.random()
                    if x < .35: coord = rng.randrange(3)
                    elif x < .5: g = list(g); g[rng.choice([2, 5, 8])] += 1
                else: coord = rng.randrange(3); g = grid(rng, coord)
                if rng.random() < .12: g, coord = spoil(rng, g, coord)
                reqs.append((g, coord))
                h.append({"op": "make", "m": m, "f": rng.choice([0, 1, 1, 2]), "g": g, "coord": coord})
                if rng.random() < .25:
                    k = rng.choice([1, 2, 4, 5, 7, 8]); a = 3 * ((k - 1) // 3)
                    if g[a + 1] - g[a] > 100000 and g[k - 1] not in (TURN, HALFT): h[-1]["e"] = [k, rng.randrange(1, 5)]
                if rng.random() < .2: h.append({"op": "world", "m": 0, "c": world(rng)})
                if rng.random() < .1: h.append(dict(h[-1] if h[-1]["op"] == "make" else {"op": "make", "m": m, "f": 1, "g": g, "coord": coord}))
                maps[m] = g, coord
            for _ in range(15):
                m = rng.choice(sorted(maps)); h.append({"op": "ask", "m": m, "p": point(rng, maps[m][0])})
            hs.append(drop(h))
        return hs
def bad(g, coord):
    """requests that surely give no map, so that it is not asked"""
    a = lambda k, t: 0 <= g[k] <= t and 0 <= g[k + 1] <= t
    return any(g[k + 1] < g[k] or g[k + 2] < 0 for k in (0, 3, 6)) or coord not in (0, 1, 2) or \
        (coord and min(g[0], g[1]) < 0) or (coord == 1 and not a(3, TURN)) or (coord == 2 and not (a(3, HALFT) and a(6, TURN)))
def drop(h):
    out = []; ok = set(); w = False
    for c in h:
        if c["op"] == "world": w = True
        if c["op"] == "make" and w and not bad(c["g"], c["coord"]): ok.add(c["m"])
        if c["op"] == "ask" and c["m"] not in ok: continue
        out.append(c)
    return out
