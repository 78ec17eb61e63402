"""P19 (measurement surfaces) and P20 (three-vectors). Generators propose; Surface.tla and Vector.tla decide."""
import random, math, json
from vlib import *
from engine import Check
from pads import tok
TWOPI = 6283185; PI = 3141593; HALF = 1570796
def angle(rng): return rng.choice([0, HALF, -HALF, PI, -PI, TWOPI, rng.randrange(-TWOPI, TWOPI), rng.randrange(-TWOPI, TWOPI), rng.randrange(-TWOPI, TWOPI), rng.randrange(-3, 4) * 523599])

# ---------------------------------------------------------------- surfaces
def rot(ax, a, p):
    c, s = math.cos(a), math.sin(a); x, y, z = p
    return [x, c * y - s * z, s * y + c * z] if ax == 1 else [c * x + s * z, y, c * z - s * x] if ax == 2 else [c * x - s * y, s * x + c * y, z]
def to_global(s, p):
    for ax, a in s["R"]: p = rot(ax, a / 1e6, p)
    return [int(round(p[i] + s["T"][i])) for i in range(3)]
def surface(rng, n, ID=None):
    k = rng.choice(["rect", "rect", "trap", "trap", "none"]); al = rng.choice([0, 0, angle(rng), angle(rng)])
    d = rng.choice([0, rng.randrange(1, 30) * 100, rng.randrange(1, 20000)])
    ev = lambda a, b: rng.randrange(a // 4, b // 4) * 4
    b = [] if k == "none" else [ev(2000, 1000000), ev(2000, 1500000), d, al] if k == "rect" else [rng.choice([0, ev(2000, 600000)]), ev(2000, 600000), ev(4000, 1000000), d, al]
    if k == "trap" and rng.random() < .4: b[0], b[1] = b[1], b[0]
    T = rng.choice([[0, 0, 0], [rng.randrange(-3000000, 3000000) for _ in range(3)], [rng.randrange(-20000000, 20000000) for _ in range(3)]])
    R = [[rng.choice([1, 2, 3]), angle(rng)] for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
    return {"op": "surf", "s": n, "ID": rng.choice([n, -n, 0, 2147483647, -2147483648, rng.randrange(1 << 30)]) if ID is None else ID, "T": T, "R": R, "k": k, "b": b}
def lpoint(rng, s):
    """a local point, often near the border"""
    if s["k"] == "none": return [rng.randrange(-2000000, 2000000) for _ in range(3)]
    b = s["b"]; d = b[-2]; al = b[-1] / 1e6
    if s["k"] == "rect": hx, hy = b[0] / 2, b[1] / 2; y = rng.choice([0, hy, -hy, rng.uniform(-hy, hy), rng.uniform(-hy, hy), rng.uniform(-1.5 * hy, 1.5 * hy)])
    else:
        hy = b[2] / 2; y = rng.choice([0, hy, -hy, rng.uniform(-hy, hy), rng.uniform(-hy, hy), rng.uniform(-1.5 * hy, 1.5 * hy)])
        hx = (b[0] + b[1]) / 4 + y / (2 * hy) * (b[1] - b[0]) / 2
    x = rng.choice([0, hx, -hx, rng.uniform(-1, 1) * hx, rng.uniform(-1, 1) * hx, rng.uniform(-1.5, 1.5) * hx])
    z = rng.choice([0, 0, d, -d, rng.uniform(-d, d), rng.uniform(-1.5, 1.5) * d])
    j = lambda: rng.choice([0, 0, 0, 1, -1, 60, -60, 1000, -1000])
    x += j(); y += j(); z += j()
    c, q = math.cos(al), math.sin(al)
    return [int(round(c * x - q * y)), int(round(q * x + c * y)), int(round(z))]
class P19(Check):
    prop = "P19"; driver = "surf"; trace = "SurfaceTrace"; scales = (32, 1024, 1048576, 0.0009765625)
    assumptions = ["lengths up to 2 m in steps of 1e-4 mm, angles in steps of 1e-6 rad; frames are built from up to four elementary rotations",
                   "points closer to a border than the arithmetic of the specification resolves (some micrometres) may be answered either way, except on unrotated boundaries asked in the local frame, where borders belong to the inside",
                   "which object owns the surfaces handed to a store is left open"]
    def tok(self, c): return tok(c)
    def histories(self, rng, deep):
        hs, st = behaviours("SurfaceMC", "SurfaceMCDeep.cfg" if deep else "SurfaceMC.cfg"); self.mc_stats(st)
        rng.shuffle(hs); hs = hs[:12000 if deep else 1500]; self.from_spec += len(hs)
        for h in hs:
            for t in sorted({c["t"] for c in h if "t" in c}):
                h += [{"op": "look", "t": t, "ID": i} for i in (5, -2, 0, 1)] + [{"op": "filled", "t": t}, {"op": "name", "t": t}]
        for _ in range(8000 if deep else 700):
            s = surface(rng, 1); h = [s, {"op": "id", "s": 1}, {"op": "frame", "s": 1}]
            for _ in range(14):
                p = lpoint(rng, s); g = to_global(s, p); op = rng.choice(["local", "global", "trip", "inl", "inl", "ing", "ing", "both"])
                h.append({"op": op, "s": 1, "p": g if op in ("local", "ing") else p})
            hs.append(h)
        # stores of many surfaces
        for _ in range(1500 if deep else 120):
            n = rng.randrange(1, 12); pool = rng.choice([3, 8, 1000]); h = [surface(rng, i, rng.choice([rng.randrange(-pool, pool), i])) for i in range(1, n + 1)]; ids = [s["ID"] for s in h]
            if rng.random() < .4:      # identifiers that share their low (or high) bits
                b = rng.choice([0, 5, rng.randrange(1 << 31)])
                for i, s in enumerate(h): s["ID"] = ((b ^ rng.choice([0, 1 << 31, 1 << 30, 1 << rng.randrange(32), rng.randrange(1, 256) << 24, rng.randrange(1, 1 << 16) << 16, 1 << 16])) + (1 << 31)) % (1 << 32) - (1 << 31)
                ids = [s["ID"] for s in h]
            byid = {}
            for s in h: byid.setdefault(s["ID"], []).append(s["s"])
            h.append({"op": "store", "t": 1})
            for _ in range(rng.randrange(2, 9)):
                x = rng.random(); t = rng.choice(sorted({c["t"] for c in h if c["op"] in ("store", "dup")}))
                if x < .5:
                    l = [rng.choice(v) for v in byid.values() if rng.random() < .8]; rng.shuffle(l)
                    if rng.random() < .4 and l: l.append(rng.choice(byid[next(s["ID"] for s in h if s.get("s") == l[0])]))
                    h.append({"op": "fill", "t": t, "name": rng.choice(["a", "b", "filler x", ""]), "l": l, "fail": int(rng.random() < .15)})
                elif x < .6: h.append({"op": "store", "t": t + 1})
                elif x < .75: h.append({"op": "dup", "t": t + 1, "from": t})
                else: h.append({"op": "filled", "t": t})
                for _ in range(3): h.append({"op": "look", "t": t, "ID": rng.choice(ids + [rng.randrange(-pool, pool)])})
            for t in sorted({c["t"] for c in h if "t" in c}): h += [{"op": "look", "t": t, "ID": i} for i in sorted(set(ids))] + [{"op": "filled", "t": t}, {"op": "name", "t": t}]
            hs.append(h)
        return hs

# ---------------------------------------------------------------- vectors
class P20(Check):
    prop = "P20"; driver = "vec"; trace = "VectorTrace"
    assumptions = ["components are whole multiples of a power of two between 2^-200 and 2^200 for everything that is exact in floating point; cylindrical and spherical read-out is compared within about 3e-6",
                   "the unit vector of the zero vector is not asked for"]
    def tok(self, c): return tok(c)
    def histories(self, rng, deep):
        hs, st = behaviours("VectorMC", "VectorMCDeep.cfg" if deep else "VectorMC.cfg"); self.mc_stats(st)
        rng.shuffle(hs); hs = hs[:15000 if deep else 2000]; self.from_spec += len(hs)
        for h in hs:
            for i in sorted({c["id"] for c in h if c["op"] in ("mk", "add", "sub", "cross", "scale", "copy")}): h += [{"op": o, "id": i} for o in ("get", "mag")]
        comp = lambda m: rng.choice([0, 0, 1, -1, m, -m, rng.randrange(-m, m + 1), rng.randrange(-m, m + 1), rng.randrange(-m, m + 1), rng.randrange(-9, 10)])
        for _ in range(4000 if deep else 400):
            e = rng.choice([0, 0, -6, 6, 20, -20, -60, 60, -200, 200]); h = [{"op": "unit", "e": e}]; live = {}; M = rng.choice([5, 300, 15000])
            for _ in range(rng.randrange(4, 30)):
                x = rng.random(); ids = sorted(live); small = [i for i in ids if max(map(abs, live[i])) <= 100]
                if x < .25 or not ids:
                    i = rng.randrange(1, 5); a = [comp(M) for _ in range(3)]; how = rng.choice(["xyz", "cart", "double", "other", "hep", "zero"] + (["float"] if abs(e) <= 60 else []))
                    h.append({"op": "mk", "id": i, "how": how, "a": a}); live[i] = [0, 0, 0] if how == "zero" else a
                elif x < .4:
                    p, q = rng.choice(ids), rng.choice(ids); op = rng.choice(["add", "sub"]); r = [live[p][k] + (live[q][k] if op == "add" else -live[q][k]) for k in range(3)]
                    if max(map(abs, r)) > 15000: continue
                    i = rng.randrange(1, 5); h.append({"op": op, "id": i, "p": p, "q": q}); live[i] = r
                elif x < .48 and small:
                    p, q = rng.choice(small), rng.choice(small); a, b = live[p], live[q]; i = rng.randrange(1, 5)
                    r = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
                    if max(map(abs, r)) > 15000: continue
                    h.append({"op": "cross", "id": i, "p": p, "q": q}); live[i] = r
                elif x < .55:
                    p = rng.choice(ids); s = rng.choice([0, 1, -1, 2, -3, 7]); r = [s * k for k in live[p]]; i = rng.randrange(1, 5)
                    if max(map(abs, r)) > 15000: continue
                    h.append({"op": "scale", "id": i, "s": s, "p": p}); live[i] = r
                elif x < .6: p = rng.choice(ids); i = rng.randrange(1, 5); h.append({"op": "copy", "id": i, "p": p}); live[i] = list(live[p])
                elif x < .7:
                    p = rng.choice(ids); i = rng.choice([0, 1, 2, 0, 1, 2, -1, 3, 4, 100, -2147483648]); v = comp(M); h.append({"op": "set", "id": p, "i": i, "v": v})
                    if 0 <= i < 3: live[p] = list(live[p]); live[p][i] = v
                elif x < .8: h.append({"op": rng.choice(["eq", "dot"]), "p": rng.choice(ids), "q": rng.choice(ids)})
                else: h.append({"op": rng.choice(["mag", "mag", "conv", "get", "peek"] + (["print"] if e == 0 else [])), "id": rng.choice(ids)})
            h += [{"op": "get", "id": i} for i in sorted(live)]
            hs.append(h)
        for _ in range(1000 if deep else 100):      # plain vectors of 2, 3, 5 components
            h = [{"op": "unit", "e": rng.choice([0, 5, -20])}]; kinds = {}; D = {"v2": 2, "v3": 3, "n5": 5}
            for _ in range(24):
                x = rng.random()
                if x < .2 or not kinds: i = rng.randrange(1, 4); kinds[i] = rng.choice(["v2", "v2", "v3", "n5"]); h.append({"op": "nmk", "id": i, "k": kinds[i], "a": [comp(15000) for _ in range(D[kinds[i]])] if rng.random() < .7 else []})
                elif x < .3: p, i = rng.choice(sorted(kinds)), rng.randrange(1, 4); kinds[i] = kinds[p]; h.append({"op": "ncopy", "id": i, "p": p})
                else: i = rng.choice(sorted(kinds)); n = D[kinds[i]]; k = rng.choice([rng.randrange(n)] * 4 + [n, n + 1, -1, 1000000, -2147483647]); h.append(dict({"op": "nset", "v": comp(15000)} if x < .6 else {"op": "nget"}, id=i, i=k))
            for i in sorted(kinds): h += [{"op": "nget", "id": i, "i": k} for k in range(D[kinds[i]] + 1)]
            hs.append(h)
        for _ in range(1500 if deep else 150):
            h = []
            for _ in range(20):
                op = rng.choice(["cyl", "sph", "turn"]); ln = lambda: rng.choice([0, rng.randrange(-100000000, 100000000), rng.randrange(-1000000, 1000000), rng.randrange(-20000, 20000)])
                if op == "cyl": a = [abs(ln()) if rng.random() < .85 else ln(), angle(rng), ln()]
                elif op == "sph": a = [abs(ln()) if rng.random() < .85 else ln(), angle(rng), rng.choice([0, HALF, PI, rng.randrange(0, PI), rng.randrange(0, PI), angle(rng)])]
                else: a = [rng.choice([0, ln(), ln()]) for _ in range(3)]
                h.append({"op": op, "a": a})
            hs.append(h)
        return hs
