"""P09, P10, P11 (layouts), P21: pad layouts. The generator only proposes parameters and points; PadPlane.tla decides."""
import random, math, json
from vlib import *
from engine import Check

TWOPI = 6283185; PI = 3141593
def tok(c): return [c["op"], json.dumps({k: v for k, v in c.items() if k not in ("op", "r")})]

# ---------------------------------------------------------------- parameters
class Lay:
    """rough geometry, used only to aim points"""
    def __init__(s, k, a, exact=False): s.k = k; s.a = a; s.exact = exact; s.rows = []; s.top = a[2] if k == "rect" else a[0]; s.rep = 0; s.ngrp = 0
    def polar(s): return s.k != "rect"
    def add(s, g):
        s.ngrp += 1
        if s.k == "rect":
            rh = g[4] or g[3]
            for _ in range(g[0]):
                s.rows.append(dict(n=g[1], lo=s.top, hi=s.top + rh, c=s.top + rh // 2, h=g[3], w=g[2], a=s.a[0] + g[5], T=s.a[1] - s.a[0] - g[5] - g[6])); s.top += rh
        else:
            for _ in range(g[0]):
                c = s.top + g[3] // 2; T = TWOPI if g[2] == -1 else int(g[2] * g[1] / c * 1e6); a = int(g[4] / c * 1e6)
                while a >= TWOPI: a -= TWOPI
                while a < -TWOPI: a += TWOPI
                s.rows.append(dict(n=g[1], lo=s.top, hi=s.top + g[3], c=c, h=g[6] or g[3], w=int(g[5] / c * 1e6) or T // g[1], a=a, T=T)); s.top += g[3]
    def repeat(s, n):
        if s.rep or n == 0: return
        s.rep = n; rows = list(s.rows)
        for _ in range(n - 1):
            for r in rows:
                rh = r["hi"] - r["lo"]
                s.rows.append(dict(r, lo=s.top, hi=s.top + rh, c=s.top + rh // 2)); s.top += rh
    def fix(s):
        a = s.a
        if s.k == "fps":
            nr = (a[1] + 100 - a[0]) // a[2]; n = min(a[4], nr) if a[4] > 0 else nr; D = a[1] - a[0]; T = a[6] if a[6] <= TWOPI else a[6] % TWOPI
            for i in range(n):
                c = a[0] + (2 * i + 1) * D / (2 * n); np = int(c * T / 1e6 / (a[3] + a[5]))
                s.rows.append(dict(n=np, lo=a[0] + i * D // n, hi=a[0] + (i + 1) * D // n, c=int(c), h=a[2], w=int(a[3] / c * 1e6), a=0, T=T))
        elif s.k == "fpa":
            n = a[2]; D = a[1] - a[0]
            for i in range(n):
                s.rows.append(dict(n=a[5], lo=a[0] + i * D // n, hi=a[0] + (i + 1) * D // n, c=a[0] + (2 * i + 1) * D // (2 * n), h=D // n, w=(a[4] - a[3]) // a[5], a=a[3], T=a[4] - a[3]))
        return s
    def copy(s):
        t = Lay(s.k, s.a, s.exact); t.rows = list(s.rows); t.top = s.top; t.rep = s.rep; t.ngrp = s.ngrp; return t

def q10(rng, a, b): return rng.randrange(a // 10, b // 10 + 1) * 10
def rect_base(rng, exact):
    if exact:
        u = 1250; K = rng.randrange(8, 400); x0 = rng.randrange(-200, 200) * u; return [x0, x0 + K * u, rng.randrange(-200, 200) * u]
    x0 = q10(rng, -700000, 400000); return [x0, x0 + q10(rng, 20000, 600000), q10(rng, -500000, 300000)]
def rect_row(rng, base, exact, cnt=None, maxn=40):
    W = base[1] - base[0]; cnt = cnt or rng.choice([1, 1, 1, 2, 3])
    if exact:
        u = 1250; K = W // u
        n = rng.randrange(1, min(maxn, K) + 1); pitch = rng.randrange(1, K // n + 1)
        if rng.random() < .4: pitch = K // n
        rest = K - n * pitch; l = rng.randrange(0, rest + 1)
        w = rng.choice([pitch, pitch, rng.randrange(1, pitch + 1)]); h = rng.randrange(1, 40)
        rh = rng.choice([0, h, h + rng.randrange(0, 20), h + rng.randrange(0, 60)])
        return [cnt, n, w * u, h * u, rh * u, l * u, (rest - l) * u]
    l, r = (0, 0) if rng.random() < .4 else (q10(rng, 0, W // 3), q10(rng, 0, W // 3))
    n = rng.randrange(1, maxn + 1); T = W - l - r
    w = max(10, int(T / n * rng.choice([.5, .9, .99])) // 10 * 10) if T // n > 20 else 10
    h = q10(rng, 500, 60000); rh = rng.choice([0, h, h + q10(rng, 0, 3000), h + q10(rng, 0, 90000)])
    if n * w > T - 20: n = max(1, (T - 20) // w)
    return [cnt, n, w, h, rh, l, r]
def tight(rng, maxpads):
    """a row in which one pad more just fits, or just does not (all numbers exact)"""
    for _ in range(200):
        n = rng.randrange(1, 6); m = rng.randrange(500, 20000); rmin = rng.randrange(100000, 800000); D = 2 * n * m; ph = 2 * m - rng.randrange(0, m // 2)
        T = rng.randrange(300000, 6200000); r = rng.randrange(n); k = rng.randrange(1, maxpads)
        if (D + 100) // ph < n or (D + 100) % ph < 5: continue
        g = rng.choice([0, 0, rng.randrange(1, 50)]); w = (rmin + (2 * r + 1) * m) * T // (10 ** 6 * k) + rng.choice([-1, 0, 1, 1, 2]) - g
        if w < 1000: continue
        q = 10 ** 6 * (w + g); ok = True
        for i in range(n):
            x = (rmin + (2 * i + 1) * m) * T
            if x // q < 1 or x // q > maxpads * 4 or not 1e-9 < x % q / q < 1 - 1e-9: ok = False
        if ok: return [rmin, rmin + D, ph, w, n, g, T]
def fps(rng, maxpads=120, maxrows=12):
    if rng.random() < .2:
        a = tight(rng, maxpads)
        if a: return a
    while True:
        rmin = q10(rng, 100000, 800000); ph = q10(rng, 5000, 150000); rows = rng.randrange(1, maxrows + 1)
        rmax = rmin + rows * ph + rng.choice([0, 0, q10(rng, 0, ph - 1000)])
        if rmax > 2000000: continue
        phi = rng.choice([TWOPI, TWOPI, rng.randrange(300000, 6200000), rng.randrange(300000, 3300000), TWOPI + rng.randrange(300000, 3000000)])
        T = phi if phi <= TWOPI else phi - TWOPI
        per = (rmin * T / 1e6) / rng.randrange(1, maxpads)
        w = max(1000, int(per * rng.choice([.6, .9, 1])) // 10 * 10); g = rng.choice([0, 0, int(per * .1) // 10 * 10])
        nrow = rng.choice([0, 0, rows, rng.randrange(1, rows + 3)])
        nr = (rmax + 100 - rmin) // ph; n = min(nrow, nr) if nrow > 0 else nr
        if n < 1 or (rmax + 100 - rmin) % ph < 5: continue
        ok = True
        for i in range(n):
            u = (rmin + (2 * i + 1) * (rmax - rmin) / (2 * n)) * (2 * math.pi if T == TWOPI else T / 1e6) / (w + g)
            if u < 1 or u > maxpads * 4 or not .003 < u % 1 < .997: ok = False
        if ok: return [rmin, rmax, ph, w, nrow, g, phi]
def fpa(rng, maxpads=40, maxrows=10):
    rmin = q10(rng, 50000, 900000); rmax = rmin + q10(rng, 20000, 1000000)
    n = rng.randrange(1, maxrows + 1); x = rng.random()
    if x < .2: lo, hi = 0, TWOPI
    elif x < .35: lo, hi = -PI, PI
    elif x < .45: lo, hi = -PI, rng.randrange(-2000000, 3000000)
    else: lo = rng.randrange(-3000000, 4000000); hi = lo + rng.choice([rng.randrange(100000, 3000000), rng.randrange(3000000, 6250000)])
    return [rmin, rmax, n, lo, hi, rng.randrange(1, maxpads + 1)]
def vers_row(rng, lay, maxpads=40):
    rh = rng.randrange(50, 5000) * 20; c = lay.top + rh // 2; n = rng.randrange(1, maxpads + 1); cnt = rng.choice([1, 1, 2, 3])
    if rng.random() < .25:
        pitch = -1; cnt = 1; full = 2 * math.pi * c / n; w = rng.choice([0, max(10, int(full * .8) // 10 * 10)])
    else:
        T = rng.choice([rng.uniform(.1, 1.5), rng.uniform(1, 6.2), rng.uniform(.1, 3)])
        pitch = max(100, int(T * c / n) // 10 * 10)
        while pitch * n / c > 6.25: n -= 1
        if n < 1: return None
        w = rng.choice([0, 0, pitch, max(10, int(pitch * rng.uniform(.3, 1)) // 10 * 10)])
    h = rng.choice([0, 0, rh, rng.randrange(10, rh) // 2 * 2])
    x = rng.random()
    off = 0 if x < .3 else rng.uniform(-3, 3) * c if x < .7 else rng.uniform(-6, 6) * c if x < .9 else rng.uniform(-14, 14) * c
    off = int(off) // 10 * 10
    f = abs(off / c) % (2 * math.pi)
    if min(f, 2 * math.pi - f) < .001 and off: off = 0
    return [cnt, n, pitch, rh, off, w, h]

def build(rng, id, small=False, kind=None, bad=False):
    """commands that build one layout, and its rough geometry"""
    k = kind or rng.choice(["rect", "rect", "fps", "fpa", "vers", "vers"]); h = []
    mp = 6 if small else 40
    if k in ("fps", "fpa"):
        a = fps(rng, 20 if small else 120, 4 if small else 12) if k == "fps" else fpa(rng, mp, 3 if small else 10)
        h.append({"op": "new", "id": id, "k": k, "a": a})
        return h, Lay(k, a).fix()
    exact = k == "rect" and rng.random() < .5
    a = rect_base(rng, exact) if k == "rect" else [q10(rng, 100000, 800000)]
    lay = Lay(k, a, exact); h.append({"op": "new", "id": id, "k": k, "a": a})
    ng = rng.randrange(1, 3 if small else 5)
    for _ in range(ng):
        if bad and rng.random() < .3: h.append(bad_row(rng, id, lay))
        add(rng, h, id, lay, mp)
    if k == "rect" and rng.random() < .35 and len(lay.rows) <= 8:
        n = rng.choice([1, 2, 2, 3]); h.append({"op": "repeat", "id": id, "n": n}); lay.repeat(n)
        if rng.random() < .3: add(rng, h, id, lay, mp)
        if rng.random() < .3: h.append({"op": "repeat", "id": id, "n": 2})
    if bad and k == "rect" and rng.random() < .1: h.insert(rng.randrange(1, len(h) + 1), {"op": "repeat", "id": id, "n": 0})
    if bad and rng.random() < .3: h.append(bad_row(rng, id, lay))
    return h, lay
def add(rng, h, id, lay, mp=40):
    g = rect_row(rng, lay.a, lay.exact, maxn=mp) if lay.k == "rect" else vers_row(rng, lay, mp)
    if g is None or lay.top > 1800000: return
    if lay.k == "vers" and lay.top + g[0] * g[3] > 2000000: return
    if lay.k == "rect" and lay.exact and lay.rows and rng.random() < .15:   # exactly filling
        K = (lay.a[1] - lay.a[0]) // 1250; n = rng.choice([d for d in range(1, min(mp, K) + 1) if K % d == 0]); g[1] = n; g[2] = K // n * 1250; g[5] = g[6] = 0
    h.append({"op": "addrow", "id": id, "g": g}); lay.add(g)
def bad_row(rng, id, lay):
    if lay.k == "rect":
        g = rect_row(rng, lay.a, lay.exact)
        x = rng.random()
        if x < .15: g[0] = rng.choice([0, -1, -3])
        elif x < .3: g[1] = rng.choice([0, -1, -7])
        elif x < .45: g[rng.randrange(2, 7)] = rng.choice([-10, -1250, -100000])
        elif x < .7: g[2] = (lay.a[1] - lay.a[0] - g[5] - g[6]) // g[1] + 1250
        else: g[4] = max(10, g[3] - 10 if g[3] > 20 else g[3]); g[3] = g[4] + 10
    else:
        g = vers_row(rng, lay) or [1, 3, 1000, 2000, 0, 0, 0]
        x = rng.randrange(7)
        if x == 0: g[1] = rng.choice([0, -3])
        elif x == 1: g[2] = -5000
        elif x == 2: g[5] = -10
        elif x == 3: g[2] = 1000; g[1] = 3; g[5] = rng.choice([1010, 99990])
        elif x == 4: g[3] = rng.choice([0, -2000])
        elif x == 5: g[0] = rng.choice([0, -1])
        else: c = lay.top + g[3] // 2; g[1] = rng.randrange(2, 30); g[2] = int(6.4 * c / g[1]) // 10 * 10; g[5] = 0
        if g[2] == -1 and x not in (1,): g[2] = 1000; g[1] = g[1] if x == 0 else 3
    return {"op": "addrow", "id": id, "g": g}

# ---------------------------------------------------------------- queries
def some_pad(rng, lay):
    rs = [i for i, r in enumerate(lay.rows) if r["n"] > 0]
    if not rs: return None
    r = rng.choice([rs[0], rs[-1], rng.choice(rs), rng.choice(rs)]); n = lay.rows[r]["n"]
    return r, rng.choice([0, n - 1, rng.randrange(n), rng.randrange(n)])
def point(rng, lay, near=None):
    """a point: anywhere, or near the borders of a pad/row"""
    x = rng.random()
    if lay.rows and x < .75:
        r, p = near if near and rng.random() < .6 else some_pad(rng, lay)
        w = lay.rows[r]; pitch = w["T"] / w["n"]; mid = w["a"] + (p + .5) * pitch
        sml = lambda s: rng.choice([0, 0, 1, -1]) * rng.choice([20, 60, 300, 2000]) * s
        u = rng.choice([mid, mid - pitch / 2, mid + pitch / 2, mid - w["w"] / 2, mid + w["w"] / 2, rng.uniform(mid - pitch, mid + pitch)])
        v = rng.choice([w["c"], w["lo"], w["hi"], w["c"] - w["h"] / 2, w["c"] + w["h"] / 2, rng.uniform(2 * w["lo"] - w["c"], 2 * w["hi"] - w["c"])])
        u = int(u) + sml(1); v = int(v) + sml(1)
    else:
        lo = lay.rows[0]["lo"] if lay.rows else lay.top; hi = lay.rows[-1]["hi"] if lay.rows else lay.top + 1000; H = hi - lo
        if lay.polar(): v = int(rng.choice([rng.uniform(0, hi * 1.3), rng.uniform(lo, hi)])); u = rng.randrange(-4 * PI, 4 * PI)
        else: W = lay.a[1] - lay.a[0]; v = int(rng.uniform(lo - .5 * H, hi + .5 * H)); u = int(rng.uniform(lay.a[0] - .5 * W, lay.a[1] + .5 * W))
    if lay.polar():
        if rng.random() < .35: u += rng.choice([-2, -1, 1, 2]) * TWOPI
        return max(v, 1000), u
    if lay.exact and rng.random() < .7: u = u // 625 * 625; v = v // 625 * 625
    return u, v
def pq(rng, lay, id, ops=("nearest", "nearest", "inside", "insideany", "dist", "dist")):
    op = rng.choice(ops); c = {"op": op, "id": id}
    pd = some_pad(rng, lay)
    if pd is None: return None
    c["px"], c["py"] = point(rng, lay, pd)
    if op in ("inside", "dist"): c["row"], c["pad"] = pd
    c["exact"] = bool(lay.exact and c["px"] % 625 == 0 and c["py"] % 625 == 0 and all(w["T"] % w["n"] == 0 and (w["T"] // w["n"]) % 1250 == 0 for w in lay.rows))
    return c
def iq(rng, lay, id):
    x = rng.random()
    if x < .1: return {"op": rng.choice(["nrows", "npads", "types", "ext"]), "id": id}
    if x < .2: return {"op": "padsin", "id": id, "row": rng.choice([-1, len(lay.rows), rng.randrange(-2, len(lay.rows) + 2), rng.randrange(max(1, len(lay.rows)))])}
    pd = some_pad(rng, lay)
    if x < .3 or pd is None:
        r = rng.choice([-1, -2, len(lay.rows), len(lay.rows) + 1, rng.randrange(max(1, len(lay.rows))), 65535, 32768])
        n = lay.rows[r]["n"] if 0 <= r < len(lay.rows) else 3
        return {"op": "index", "id": id, "row": r, "pad": rng.choice([-1, n, n + 1, -n, 65535, 65536, -65536, 0, n - 1, -65535])}
    op = rng.choice(["index", "left", "right", "left", "right", "geo", "centre"])
    if op == "centre" and lay.rows[pd[0]]["w"] < 100: op = "geo"
    return {"op": op, "id": id, "row": pd[0], "pad": pd[1]}
def rowq(rng, lay, id):
    x = rng.random()
    if x < .25 or not lay.rows: return {"op": rng.choice(["ext", "npads", "nrows"]), "id": id}
    if x < .4: return {"op": "rowh", "id": id, "row": rng.randrange(len(lay.rows))}
    if x < .45: return {"op": "rowh", "id": id, "row": rng.choice([-1, len(lay.rows)])}
    if x < .6: return {"op": "detail", "id": id, "row": rng.randrange(len(lay.rows))}
    pd = some_pad(rng, lay)
    return {"op": "geo", "id": id, "row": pd[0], "pad": pd[1]} if pd else {"op": "npads", "id": id}
def mc_histories(chk, rng, k, deep=False):
    st, _ = model_check("PadPlaneMC", "PadPlaneLawsDeep.cfg" if deep else "PadPlaneLaws.cfg"); chk.mc_stats(st)
    cfg = "PadPlaneMCDeep.cfg" if deep else "PadPlaneMC.cfg"
    hs, st = behaviours("PadPlaneMC", cfg)
    chk.mc_stats(st); rng.shuffle(hs); hs = hs[:k]; chk.from_spec += len(hs)
    return hs
def ask(rng, lay, id, n, fs):
    out = []
    while len(out) < n:
        c = rng.choice(fs)(rng, lay, id)
        if c: out.append(c)
    return out
def lay_of(cmds):
    """rough geometry of every object after a builder history"""
    ob = {}
    for c in cmds:
        o = c["op"]
        if o == "new": ob[c["id"]] = Lay(c["k"], c["a"], False).fix()
        elif o == "addrow":
            l = ob[c["id"]]; g = c["g"]
            if l.k == "rect" and (min(g[0], g[1]) <= 0 or min(g) < 0 or g[1] * g[2] > l.a[1] - l.a[0] - g[5] - g[6] or (g[4] or g[3]) < g[3]): continue
            if l.k == "vers" and g[2] != -1 and g[5] > g[2]: continue
            l.add(g)
        elif o == "repeat": ob[c["id"]].repeat(c["n"])
        elif o in ("copy", "clone", "assign"): ob[c["id"]] = ob[c["from"]].copy()
        elif o == "del": del ob[c["id"]]
    return ob

class Pads(Check):
    driver = "pads"; trace = "PadPlaneTrace"; scales = (32, 4096, 0.015625)
    def scalable(self, h): return not any(c.get("k") == "fps" for c in h)   # rounding of its rows has an absolute tolerance
    assumptions = ["lengths up to 200 mm in steps of 1e-4 mm, angles in steps of 1e-6 rad; at most 65535 pads per row and rows per layout",
                   "answers are compared within 2e-4 mm / 5e-6 rad (distances 2e-3 mm + 2e-4 relative); closer than that to a border either answer is accepted, except for rectangular layouts on a dyadic grid, where borders are decided exactly",
                   "degenerate layouts (zero pad size, negative opening angle) are not generated"]
    def tok(self, c): return tok(c)
class P09(Pads):
    prop = "P09"
    def histories(self, rng, deep):
        hs = []
        for h in mc_histories(self, rng, 3000 if deep else 250, deep):
            obs = lay_of(h); q = []
            for id, l in obs.items(): q += ask(rng, l, id, 6, [iq])
            hs.append(h + q)
        for _ in range(1500 if deep else 180):
            h, lay = build(rng, 1, small=rng.random() < .4)
            for r in range(len(lay.rows)):
                n = lay.rows[r]["n"]
                for p in {0, n - 1, n // 2}:
                    if 0 <= p < n: h += [{"op": o, "id": 1, "row": r, "pad": p} for o in ("left", "right", "index")]
                h.append({"op": "padsin", "id": 1, "row": r})
                h += [{"op": "index", "id": 1, "row": r, "pad": p} for p in (-1, n)]
            h += ask(rng, lay, 1, 30, [iq]); hs.append(h)
        # every pad of some layouts
        for _ in range(200 if deep else 16):
            h, lay = build(rng, 1, small=True)
            for r in range(len(lay.rows)):
                for p in range(min(lay.rows[r]["n"], 60)): h += [{"op": o, "id": 1, "row": r, "pad": p} for o in ("left", "right", "index", "centre") if o != "centre" or lay.rows[r]["w"] >= 100]
            hs.append(h)
        # large planes
        big = [("rect", [0, 1000000, 0], [[1, 40000, 10, 1000, 0, 0, 0], [2, 65535, 10, 1000, 1000, 0, 0]]), ("rect", [0, 10000, 0], [[40000, 2, 1000, 10, 10, 0, 0]]),
               ("fpa", [500000, 1500000, 200, 0, TWOPI, 3000], []), ("fpa", [500000, 1500000, 20000, -1000000, 1000000, 7], []), ("vers", [1000000], [[3, 30000, 200, 1000, 0, 0, 0]]), ("fps", [1000000, 1500000, 10000, 777, 0, 3, TWOPI], [])]
        for k, a, gs in big:
            h = [{"op": "new", "id": 1, "k": k, "a": a}] + [{"op": "addrow", "id": 1, "g": g} for g in gs]
            lay = Lay(k, a)
            if k in ("rect", "vers"):
                for g in gs: lay.add(g)
            else: lay.fix()
            h += [{"op": "npads", "id": 1}, {"op": "nrows", "id": 1}]
            for _ in range(30):
                r, p = some_pad(rng, lay); n = lay.rows[r]["n"]
                h += [{"op": o, "id": 1, "row": r, "pad": p} for o in ("index", "left", "right")] + [{"op": "index", "id": 1, "row": r, "pad": n}]
            h.append({"op": "padsin", "id": 1, "row": rng.randrange(len(lay.rows))})
            hs.append(h)
        hs += [[{"op": "new", "id": 1, "k": k, "a": a}, {"op": "nrows", "id": 1}, {"op": "npads", "id": 1}, {"op": "padsin", "id": 1, "row": 0}, {"op": "index", "id": 1, "row": 0, "pad": 0},
                {"op": "index", "id": 1, "row": -1, "pad": 0}, {"op": "index", "id": 1, "row": 7, "pad": 0}, {"op": "nearest", "id": 1, "px": 100, "py": 100}, {"op": "insideany", "id": 1, "px": 100, "py": 100, "exact": False}]
               for k, a in (("rect", [0, 1000, 0]), ("vers", [1000]))]
        return hs
class P10(Pads):
    prop = "P10"
    def histories(self, rng, deep):
        hs = []
        for h in mc_histories(self, rng, 2000 if deep else 150, deep):
            obs = lay_of(h); q = []
            for id, l in obs.items():
                if l.rows: q += ask(rng, l, id, 8, [pq])
            hs.append(h + q)
        for _ in range(9000 if deep else 600):
            h, lay = build(rng, 1, small=rng.random() < .4)
            if rng.random() < .2:
                h.append({"op": rng.choice(["copy", "clone"]), "id": 2, "from": 1}); h.append({"op": "del", "id": 1}); id = 2
            else: id = 1
            h += ask(rng, lay, id, 36, [pq])
            for _ in range(6):
                pd = some_pad(rng, lay)
                if pd and lay.rows[pd[0]]["w"] >= 100: h.append({"op": "centre", "id": id, "row": pd[0], "pad": pd[1]})
            hs.append(h)
        # very uneven row heights, rows of very different width
        for _ in range(1000 if deep else 80):
            a = rect_base(rng, False); lay = Lay("rect", a); h = [{"op": "new", "id": 1, "k": "rect", "a": a}]
            for _ in range(rng.randrange(2, 9)):
                g = rect_row(rng, a, False, cnt=rng.choice([1, 1, 5])); f = rng.choice([1, 5, 30])
                g[3] = max(500, g[3] // f); g[4] = rng.choice([g[3], g[3] + q10(rng, 0, 100000)])
                h.append({"op": "addrow", "id": 1, "g": g}); lay.add(g)
            h += ask(rng, lay, 1, 30, [pq]); hs.append(h)
        return hs
class P21(Pads):
    prop = "P21"
    def histories(self, rng, deep):
        hs = []
        for h in mc_histories(self, rng, 3000 if deep else 250, deep):
            obs = lay_of(h); q = []
            for id, l in obs.items(): q += ask(rng, l, id, 6, [rowq])
            hs.append(h + q)
        for _ in range(7000 if deep else 500):
            h, lay = build(rng, 1, small=rng.random() < .3, bad=True)
            h += [{"op": o, "id": 1} for o in ("types", "nrows", "npads", "ext")]
            for r in range(len(lay.rows)):
                if len(lay.rows) < 8 or rng.random() < .4:
                    h += [{"op": "rowh", "id": 1, "row": r}, {"op": "detail", "id": 1, "row": r}]
                    n = lay.rows[r]["n"]
                    for p in sorted({0, n - 1, rng.randrange(max(1, n))}):
                        if 0 <= p < n: h.append({"op": "geo", "id": 1, "row": r, "pad": p})
                    h += [{"op": "index", "id": 1, "row": r, "pad": n}, {"op": "index", "id": 1, "row": r, "pad": -1}]
            hs.append(h)
        # interleaved building and asking, refused rows in between
        for _ in range(1500 if deep else 150):
            k = rng.choice(["rect", "vers"]); h, lay = build(rng, 1, kind=k, small=True)
            for _ in range(6):
                if rng.random() < .4: h.append(bad_row(rng, 1, lay))
                elif lay.rep == 0 or k == "rect": add(rng, h, 1, lay)
                h += ask(rng, lay, 1, 4, [rowq, rowq, iq])
            hs.append(h)
        for a in ([100000, 200000, 0, 1000, 0, 0, TWOPI], [100000, 200000, 1000, 0, 0, 0, TWOPI], [100000, 200000, -10, 1000, 0, 0, TWOPI], [100000, 200000, 100, -1000, 3, 0, TWOPI]):
            hs.append([{"op": "new", "id": 1, "k": "fps", "a": a}])
        for a in ([100000, 200000, 0, 0, PI, 4], [100000, 200000, -2, 0, PI, 4], [100000, 200000, 3, 0, PI, 0], [100000, 200000, 3, -PI, PI, -5]):
            hs.append([{"op": "new", "id": 1, "k": "fpa", "a": a}])
        return hs
def copy_history(rng, n, small=True):
    """build, ask (which fills the lists of pads), copy, assign, extend, destroy in any order"""
    h = []; ob = {}; nid = [0]
    def fresh():
        nid[0] += 1; return nid[0]
    for _ in range(rng.randrange(1, 3)):
        i = fresh(); b, l = build(rng, i, small=small); h += b; ob[i] = l
    for _ in range(n):
        if not ob:
            i = fresh(); b, l = build(rng, i, small=True); h += b; ob[i] = l
        x = rng.random(); i = rng.choice(sorted(ob)); l = ob[i]
        if x < .14 and len(ob) < 5:
            j = fresh(); h.append({"op": rng.choice(["copy", "clone"]), "id": j, "from": i}); ob[j] = l.copy()
        elif x < .26:
            c = [j for j in ob if ob[j].k == l.k]; j = rng.choice(c)
            h.append({"op": "assign", "id": i, "from": j}); ob[i] = ob[j].copy()
        elif x < .32 and len(ob) > 1: h.append({"op": "del", "id": i}); del ob[i]
        elif x < .44 and l.k in ("rect", "vers") and len(l.rows) < 30: add(rng, h, i, l, 6)
        elif x < .47 and l.k == "rect" and len(l.rows) < 10 and l.rows:
            m = rng.choice([1, 2]); h.append({"op": "repeat", "id": i, "n": m}); l.repeat(m)
        elif x < .5 and len(ob) < 5:
            j = fresh(); b, m = build(rng, j, small=True); h += b; ob[j] = m
        elif x < .7: h.append({"op": "padsin", "id": i, "row": rng.randrange(max(1, len(l.rows)))})
        else: h += ask(rng, l, i, 1, [iq, rowq, pq] if l.rows else [rowq])
    for i, l in sorted(ob.items()):
        h += [{"op": o, "id": i} for o in ("types", "nrows", "npads", "ext")] + [{"op": "padsin", "id": i, "row": r} for r in range(len(l.rows))]
        h += ask(rng, l, i, 8, [iq, rowq, pq] if l.rows else [rowq])
    return h
class P11(Pads):
    prop = "P11"
    def histories(self, rng, deep):
        hs = []
        for h in mc_histories(self, rng, 4000 if deep else 400, deep):
            obs = lay_of(h); q = []
            for id, l in obs.items():
                q += [{"op": "npads", "id": id}] + [{"op": "padsin", "id": id, "row": r} for r in range(len(l.rows))] + ask(rng, l, id, 3, [iq, rowq, pq] if l.rows else [rowq])
            hs.append(h + q)
        return hs + [copy_history(rng, rng.randrange(8, 50)) for _ in range(4000 if deep else 350)]
