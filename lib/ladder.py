"""P16 (containment and sensor identity) and P17 (nearest volume, first intersection) of ladder detectors. Ladder.tla decides."""
import random, math
from vlib import *
from engine import Check
from pads import tok
from surf import TWOPI, PI, HALF, angle
def ev(rng, a, b): return rng.randrange(a // 2, b // 2 + 1) * 2
def layer(rng, d, big):
    n = rng.choice([1, 1, 2, 2, 3, 4, rng.randrange(5, 13), rng.randrange(5, 13), rng.randrange(12, 41)])
    r = rng.randrange(10000, 600000); w = ev(rng, 4000, max(6000, min(500000, int(2.6 * r * math.pi / n))))
    off = rng.choice([0, 0, rng.randrange(-w // 2, w // 2 + 1), rng.randrange(-w // 2, w // 2 + 1), rng.randrange(-2 * w, 2 * w + 1)])
    t = rng.choice([200, 1000, rng.randrange(200, 30000)]); ln = rng.choice([big, big, rng.randrange(20000, big + 1)])
    if rng.random() < .3: S = [r, off, t, ln, w]
    else: S = [max(10000, r + rng.choice([0, t, -t, rng.randrange(-3000, t + 3000)])), off + rng.choice([0, 0, rng.randrange(-w, w + 1)]), rng.choice([200, t, rng.randrange(200, t + 200)]), rng.randrange(20000, big + 1), ev(rng, 2000, w)]
    return {"op": "layer", "d": d, "n": n, "phi0": rng.choice([0, HALF, PI, -HALF, angle(rng), angle(rng)]), "L": [r, off, t, ln, w], "S": S}
def detector(rng, d):
    big = rng.randrange(100000, 1000001); gap = rng.choice([0, 0, ev(rng, 200, 60000)])
    return [{"op": "new", "d": d, "half": rng.choice([0, big, big + rng.randrange(0, 100000)]), "gap": gap}] + [layer(rng, d, big) for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 0 if rng.random() < .2 else 1]))]
def box(rng, h, s):
    """a box and its frame: ((c, s), d, o, t, len, w, gap/2)"""
    ls = [c for c in h if c["op"] == "layer"]
    if not ls: return None
    l = rng.choice(ls); b = l["S" if s else "L"]; m = rng.randrange(l["n"]); a = (l["phi0"] + TWOPI * m // l["n"]) / 1e6
    return (math.cos(a), math.sin(a)), b, next(c["gap"] for c in h if c["op"] == "new") // 2
def outof(f, q, g, side): (c, s), b, _ = f; u, v = b[0] + q[0], b[1] + q[1]; return [int(round(c * u - s * v)), int(round(s * u + c * v)), int(round(side * (g + q[2])))]
def clip(p): return [max(-1500000, min(1500000, x)) for x in p]
def inside(rng, f):
    _, b, g = f; fr = lambda: rng.choice([.5, rng.random(), rng.random(), rng.choice([0, 1])])
    return [fr() * b[2], (fr() - .5) * b[4], fr() * b[3]]
def point(rng, h, s):
    x = rng.random(); f = box(rng, h, s)
    if f is None or x < .08: return rng.choice([[0, 0, 0], [0, 0, rng.randrange(-1100000, 1100000)], [rng.randrange(-700000, 700000), 0, 0], [0, rng.randrange(-700000, 700000), 0], [0, rng.randrange(-700000, 700000), rng.randrange(-1100000, 1100000)], [rng.randrange(-700000, 700000), 0, rng.randrange(-1100000, 1100000)]])
    if x < .2: return [rng.randrange(-700000, 700000), rng.randrange(-700000, 700000), rng.randrange(-1100000, 1100000)]
    q = inside(rng, f)
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])): k = rng.randrange(3); q[k] += rng.choice([30, -30, 100, -100, 1000, -1000, 10000, -10000, f[1][2], -f[1][2], f[1][4], -f[1][4]])
    return clip(outof(f, q, f[2], rng.choice([1, -1])))
def track(rng, h, s):
    p = point(rng, h, s); f = box(rng, h, s)
    if f is None or rng.random() < .15: v = [rng.randrange(-1000, 1001) for _ in range(3)]
    else: q = clip(outof(f, inside(rng, f), f[2], rng.choice([1, -1]))); v = [q[i] - p[i] for i in range(3)]
    if rng.random() < .2: v[rng.randrange(3)] = 0
    if rng.random() < .1: v = rng.choice([[1, 0, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1], [1, 1, 0], [-1, 0, 0]])
    if rng.random() < .15: v = [-x for x in v]
    m = math.sqrt(sum(x * x for x in v))
    if m == 0: v, m = [1, 0, 0], 1
    reach = 4000000 / m
    return p, [int(round(x * reach)) for x in v]
class Ladders(Check):
    driver = "ladder"; trace = "LadderTrace"; scales = (32, 64, 16384)
    assumptions = ["distances from the axis 1 mm to 60 mm (in a third of the histories all lengths are 32 or 64 times as large), lengths up to 100 mm, up to four layers of up to forty ladders, points within 150 mm; the shell, if given, is at least as long as every ladder",
                   "points closer to a border than 1.2 micrometres may be answered either way; on a border along the beam, where the specification is exact, up to 0.3 micrometres"]
    def tok(self, c): return tok(c)
    def spec(self, rng, deep, ops):
        hs, st = behaviours("LadderMC", "LadderMCDeep.cfg" if deep else "LadderMC.cfg"); self.mc_stats(st)
        hs = [h for h in hs if h[-1]["op"] in ops]; rng.shuffle(hs); hs = hs[:8000 if deep else 1000]; self.from_spec += len(hs); return hs
    def dets(self, rng, n):
        for _ in range(n):
            h = detector(rng, 1); d = 1
            if rng.random() < .15: h += [{"op": "copy", "d": 2, "from": 1}]; d = 2
            yield h, d
class P16(Ladders):
    prop = "P16"
    def histories(self, rng, deep):
        hs = self.spec(rng, deep, ("in", "id", "get", "copy"))
        for h, d in self.dets(rng, 12000 if deep else 1500):
            h.append({"op": "get", "d": d})
            for _ in range(25): s = rng.choice([0, 1]); op = rng.choice(["in", "id"] if s else ["in"]); h.append({"op": op, "d": d, "s": s, "p": point(rng, h, s)})
            if rng.random() < .2:
                l = layer(rng, d, 100000); h.append(l)
                for _ in range(8): h.append({"op": "id", "d": d, "s": 1, "p": point(rng, h, 1)})
            hs.append(h)
        return hs
class P17(Ladders):
    prop = "P17"
    def histories(self, rng, deep):
        hs = self.spec(rng, deep, ("dist", "track", "copy"))
        for h, d in self.dets(rng, 8000 if deep else 700):
            for _ in range(8): s = rng.choice([0, 1]); h.append({"op": "dist", "d": d, "s": s, "p": point(rng, h, s)})
            for _ in range(8): s = rng.choice([0, 1]); p, v = track(rng, h, s); h.append({"op": "track", "d": d, "s": s, "p": p, "v": v, "k": rng.choice([1000, 1000, 1, 50, 20000])})
            hs.append(h)
        return hs
