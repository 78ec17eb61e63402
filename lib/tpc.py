"""P12, P13, P14 and the module/TPC part of P11. The generator proposes placements and points; TPC.tla decides."""
import math, json
from vlib import *
from engine import Check
import pads, registry
from pads import Lay, TWOPI, PI, q10, some_pad, tok
HALF = 1570796

# ---------------------------------------------------------------- modules
def layout(rng, kind=None, small=True):
    while True:
        h, _ = pads.build(rng, 1, small=small, kind=kind)
        h = [c for c in h if c["op"] != "repeat"]
        lay = pads.lay_of(h)[1]
        if any(r["n"] for r in lay.rows): return dict(k=h[0]["k"], a=h[0]["a"], gs=[c["g"] for c in h[1:]]), lay
class Mod:
    """what was set on a module; used to aim points only"""
    def __init__(s, lay, tc, ID): s.lay = lay; s.tc = tc; s.ID = ID; s.off = (0, 0); s.ang = 0; s.z = None; s.b = 0
    def copy(s):
        t = Mod(s.lay, s.tc, s.ID); t.off = s.off; t.ang = s.ang; t.z = s.z; t.b = s.b; return t
    def mirrored(s): return s.z is not None and s.z <= 0
    def offc(s): return (s.off[0] * math.cos(s.off[1] / 1e6), s.off[0] * math.sin(s.off[1] / 1e6)) if s.tc == 2 else s.off
    def fwd(s, u, v):
        x, y = (u * math.cos(v / 1e6), u * math.sin(v / 1e6)) if s.lay.polar() else (u, v)
        c, d = math.cos(s.ang / 1e6), math.sin(s.ang / 1e6); o = s.offc()
        x, y = x * c - y * d + o[0], y * c + x * d + o[1]
        return (-x if s.mirrored() else x), y
    def glob(s, x, y, rng):
        if s.tc == 1: return round(x), round(y)
        r = math.hypot(x, y); f = round(math.atan2(y, x) * 1e6) + rng.choice([0, 0, 0, 0, 1, 1, -1, 2]) * TWOPI
        return round(r), f
    def box(s):
        l = s.lay; R = [r for r in l.rows]
        lo, hi = R[0]["lo"], R[-1]["hi"]
        if l.polar(): return lo, hi, min(r["a"] for r in R), max(r["a"] + r["T"] for r in R)
        return l.a[0], l.a[1], lo, hi
def mkmod(rng, m, tc=None, ID=None, kind=None, small=True):
    tc = tc or rng.choice([1, 2])
    if kind is None and tc == 2 and rng.random() < .8: kind = rng.choice(["fpa", "fps", "vers"])
    d, lay = layout(rng, kind, small)
    ID = ID if ID is not None else rng.choice([0, 1, 2, 7, -3, 100000])
    return dict(op="mkmod", m=m, ID=ID, tc=tc, f=rng.choice([0, 5, 40000000]), **d), Mod(lay, tc, ID)
def q1250(rng, a, b): return rng.randrange(a // 1250, b // 1250 + 1) * 1250
def setter(rng, m, mod, what=None):
    what = what or rng.choice(["setoff", "setoff", "setang", "setang", "setz", "setborder"])
    if what == "setoff":
        x = rng.random(); big = rng.choice([50000, 300000, 3000000])
        if mod.tc == 1: o = (0, 0) if x < .1 else (q10(rng, -big, big), 0) if x < .2 else (0, q10(rng, -big, big)) if x < .3 else (q10(rng, -big, big), q10(rng, -big, big))
        else: o = (0, 0) if x < .15 else (0, rng.randrange(-PI, PI)) if x < .2 else (q10(rng, 0, big), rng.choice([0, HALF, PI, -HALF, rng.randrange(-TWOPI, TWOPI)]))
        mod.off = o; return dict(op="setoff", m=m, x=o[0], y=o[1])
    if what == "setang":
        a = rng.choice([0, HALF, -HALF, PI, -PI, rng.randrange(-PI, PI), rng.randrange(-PI, PI), rng.randrange(-TWOPI, TWOPI), rng.randrange(-300000, 300000)])
        mod.ang = a; return dict(op="setang", m=m, x=a)
    if what == "setz":
        z = rng.choice([0, -1250, 1250, -5000000, 5000000, q1250(rng, -5000000, 5000000)]); mod.z = z; return dict(op="setz", m=m, x=z)
    b = mod.box(); mod.b = rng.choice([0, q10(rng, 10, 3000), q10(rng, 1000, 60000), q10(rng, 1000, 400000)] + ([b[0] + q10(rng, 10, 9000)] if mod.lay.polar() else [])); return dict(op="setborder", m=m, x=mod.b)
def placed(rng, m, tc=None, ID=None, kind=None, small=True, n=None):
    c, mod = mkmod(rng, m, tc, ID, kind, small); h = [c]
    for _ in range(rng.choice([0, 1, 2, 3, 3, 4, 5]) if n is None else n): h.append(setter(rng, m, mod))
    return h, mod
def local_point(rng, mod):
    """local coordinates aimed at pads, at the border of the module, or anywhere"""
    x = rng.random()
    if x < .55: return pads.point(rng, mod.lay)
    b = mod.box(); sml = rng.choice([0, 0, 1, -1]) * rng.choice([40, 500, 5000])
    if mod.lay.polar():
        pb = min(PI, int(mod.b / max(b[0], 1) * 1e6))
        r = rng.choice([b[0] - mod.b, b[1] + mod.b, b[0], b[1], rng.uniform(0, 1.5 * b[1]), rng.uniform(b[0], b[1])]) + sml
        f = rng.choice([b[2] - pb, b[3] + pb, b[2], b[3], rng.uniform(b[2], b[3]), rng.uniform(-PI, PI)]) + rng.choice([0, 1, -1]) * rng.choice([30, 1000, 20000])
        return max(2000, int(r)), int(f)
    W = b[1] - b[0] + 2 * mod.b; H = b[3] - b[2] + 2 * mod.b
    return (int(rng.choice([b[0] - mod.b, b[1] + mod.b, b[0], b[1], rng.uniform(b[0] - W, b[1] + W), rng.uniform(b[0], b[1])]) + sml),
            int(rng.choice([b[2] - mod.b, b[3] + mod.b, b[2], b[3], rng.uniform(b[2] - H, b[3] + H), rng.uniform(b[2], b[3])]) + rng.choice([0, 0, 1, -1]) * rng.choice([40, 500, 5000])))
def gpoint(rng, mod):
    if rng.random() < .1:
        big = rng.choice([100000, 1000000, 4000000]); x, y = rng.randrange(-big, big), rng.randrange(-big, big)
        if rng.random() < .3: x = 0
        if rng.random() < .2: y = 0
    else: x, y = mod.fwd(*local_point(rng, mod))
    return mod.glob(x, y, rng)
def ask(rng, mod, ref, ops):
    op = rng.choice(ops); c = dict(op=op, **ref)
    if op == "l2g":
        c["px"], c["py"] = local_point(rng, mod)
    elif op in ("g2l", "minside", "mdist", "mnear", "minany", "minpad", "mpdist"): c["px"], c["py"] = gpoint(rng, mod)
    if op in ("minpad", "mpdist", "mcentre", "mdeleg"):
        pd = some_pad(rng, mod.lay); c["row"], c["pad"] = pd
        if op == "mcentre" and (mod.lay.rows[pd[0]]["w"] < 200 or mod.lay.rows[pd[0]]["c"] < 2000 and mod.lay.polar()): c["op"] = "mdeleg"
        if op in ("minpad", "mpdist") and rng.random() < .7:
            w = mod.lay.rows[pd[0]]; p = w["T"] / w["n"]
            u = w["a"] + (pd[1] + rng.choice([.5, 0, 1, rng.uniform(-.5, 1.5)])) * p; v = rng.choice([w["c"], w["lo"], w["hi"], rng.uniform(2 * w["lo"] - w["hi"], 2 * w["hi"] - w["lo"])])
            l = (v, u) if mod.lay.polar() else (u, v)
            c["px"], c["py"] = mod.glob(*mod.fwd(max(2000, l[0]) if mod.lay.polar() else l[0], l[1]), rng)
    if op in ("mgetparam",): c["n"] = rng.choice("ab")
    return c
P12OPS = ["g2l", "l2g", "mnear", "minpad", "mpdist", "mcentre", "minany"]
P13OPS = ["mext", "minside", "minside", "mdist", "mdist", "mcentre"]
ALLOPS = P12OPS + P13OPS + ["mget", "mtypes", "mdeleg", "mgetparam"]

def play(cmds):
    """rough modules and TPCs after a builder history of the model"""
    mo = {}; tp = {}
    for c in cmds:
        o = c["op"]
        if o == "mkmod":
            h = [dict(op="new", id=1, k=c["k"], a=c["a"])] + [dict(op="addrow", id=1, g=g) for g in c["gs"]]
            mo[c["m"]] = Mod(pads.lay_of(h)[1], c["tc"], c["ID"])
        elif o in ("mcopy", "mclone", "massign"): mo[c["m"]] = mo[c["from"]].copy()
        elif o == "mdel": del mo[c["m"]]
        elif o == "setoff": mo[c["m"]].off = (c["x"], c["y"])
        elif o == "setang": mo[c["m"]].ang = c["x"]
        elif o == "setz": mo[c["m"]].z = c["x"]
        elif o == "setborder": mo[c["m"]].b = c["x"]
        elif o == "tnew": tp[c["t"]] = (c["tc"], [])
        elif o in ("tcopy", "tassign"): tp[c["t"]] = (tp[c["from"]][0], [m.copy() for m in tp[c["from"]][1]])
        elif o == "tadd":
            tc, l = tp[c["t"]]; m = mo[c["m"]]
            if m.tc == tc and m.ID not in [x.ID for x in l]: l.append(m); del mo[c["m"]]
        elif o == "tdel": del tp[c["t"]]
    return mo, tp
def mc_histories(chk, rng, k, deep, laws=False, want=lambda h: True):
    if laws:
        st, _ = model_check("TPCMC", "TPCLawsDeep.cfg" if deep else "TPCLaws.cfg"); chk.mc_stats(st)
    hs, st = behaviours("TPCMC", "TPCMCDeep.cfg" if deep else "TPCMC.cfg"); chk.mc_stats(st)
    hs = [h for h in hs if want(h)]
    rng.shuffle(hs); hs = hs[:k]; chk.from_spec += len(hs)
    return hs
def tquery(rng, t, mods, ops=("tnearmod", "tnearpad", "tinmod", "tinpad")):
    if not mods: x = (q10(rng, -100000, 100000), rng.randrange(-3000000, 3000000))
    else: x = gpoint(rng, rng.choice(mods))
    zs = [m.z for m in mods if m.z is not None] or [0]
    z = rng.choice([0, 0, 1, -1, rng.choice(zs), q1250(rng, -6000000, 6000000), rng.choice(zs) + rng.choice([-1, 1]) * 2500000, (min(zs) + max(zs)) // 2])
    return dict(op=rng.choice(ops), t=t, px=x[0], py=x[1], d3=rng.choice([0, 1, 1]), z=z)

class Tpc(Check):
    driver = "tpc"; trace = "TPCTrace"; scales = (32,)
    def scalable(self, h): return not any(c.get("k") == "fps" for c in h)
    assumptions = ["layouts as in P09/P10 (up to 200 mm), offsets up to 300 mm (polar: not negative), any angle; lengths in steps of 1e-4 mm, angles in steps of 1e-6 rad",
                   "local and global points of a recorded answer must coincide within 1e-3 mm + 1e-5 of the size of the coordinates; answers are then judged at the local point like those of a layout (P10); local points closer than 0.1 mm to the centre of a polar layout are not judged",
                   "module extents of Cartesian pads in a polar TPC are not implemented in the code (NotImplementedException) and not judged",
                   "a module is placed before it is added to a TPC; layouts are complete before they are given to a module"]
    def tok(self, c): return tok(c)
class P12(Tpc):
    prop = "P12"
    def histories(self, rng, deep):
        hs = []
        for h in mc_histories(self, rng, 1500 if deep else 150, deep, want=lambda h: any(c["op"] == "mkmod" for c in h)):
            mo, tp = play(h)
            for i, m in sorted(mo.items()): h = h + [ask(rng, m, {"m": i}, P12OPS) for _ in range(6)]
            for t, (tc, l) in sorted(tp.items()):
                for m in l: h = h + [ask(rng, m, {"t": t, "ID": m.ID}, P12OPS) for _ in range(4)]
            hs.append(h)
        for _ in range(6000 if deep else 420):
            h, m = placed(rng, 1); h += [ask(rng, m, {"m": 1}, P12OPS + ["mdeleg"]) for _ in range(20)]
            if rng.random() < .4:
                h.append(setter(rng, 1, m)); h += [ask(rng, m, {"m": 1}, P12OPS) for _ in range(10)]
            hs.append(h)
        return hs
class P13(Tpc):
    prop = "P13"
    def histories(self, rng, deep):
        hs = []
        for h in mc_histories(self, rng, 1500 if deep else 150, deep, laws=True, want=lambda h: any(c["op"] == "mkmod" for c in h)):
            mo, tp = play(h)
            for i, m in sorted(mo.items()): h = h + [dict(op="mext", m=i)] + [ask(rng, m, {"m": i}, P13OPS) for _ in range(5)]
            for t, (tc, l) in sorted(tp.items()):
                for m in l: h = h + [ask(rng, m, {"t": t, "ID": m.ID}, P13OPS) for _ in range(4)]
            hs.append(h)
        for _ in range(6000 if deep else 420):
            c, m = mkmod(rng, 1); h = [c, dict(op="mext", m=1)]
            for _ in range(rng.randrange(1, 7)):
                h += [setter(rng, 1, m), dict(op="mext", m=1)] + [ask(rng, m, {"m": 1}, P13OPS) for _ in range(3)]
            h += [ask(rng, m, {"m": 1}, P13OPS) for _ in range(8)]; hs.append(h)
        return hs
class P14(Tpc):
    prop = "P14"
    def histories(self, rng, deep):
        hs = []
        for h in mc_histories(self, rng, 2000 if deep else 200, deep, want=lambda h: any(c["op"] == "tnew" for c in h)):
            mo, tp = play(h)
            for t, (tc, l) in sorted(tp.items()): h = h + [dict(op=o, t=t) for o in ("tget", "text", "tgetpads", "tgetfreq")] + [tquery(rng, t, l) for _ in range(5)]
            hs.append(h)
        for _ in range(3500 if deep else 260): hs.append(tpc_history(rng, rng.randrange(1, 7)))
        return hs
def tpc_history(rng, n, copies=False):
    tc = rng.choice([1, 1, 2, 2, 2]); h = [dict(op="tnew", t=1, plain=1 if tc == 2 and rng.random() < .1 else 0, drift=q1250(rng, 100000, 8000000), tc=tc)]
    mods = []; nid = 1
    style = rng.choice(["pos", "neg", "both", "unset", "mix", "both"]); zp = q1250(rng, 1250, 5000000); zn = rng.choice([-zp, 0, q1250(rng, -5000000, 0)])
    x = rng.random()
    if x < .12:
        d, lay = layout(rng, "rect" if tc == 1 and rng.random() < .6 else rng.choice(["fpa", "fps", "vers"]))
        h.append(dict(op="tpads", t=1, **d)); mods.append(Mod(lay, tc, 0))
    for i in range(n):
        if rng.random() < .15: h.append(dict(op="tdrift", t=1, x=q1250(rng, 100000, 8000000)))
        ID = rng.choice([i, i, i + 5, rng.choice([-7, 100000, 3])])
        t2 = 3 - tc if rng.random() < .08 else tc
        c, m = mkmod(rng, 1, t2, ID, kind=None if tc == 1 else rng.choice(["fpa", "fps", "vers", "vers", "rect" if rng.random() < .2 else "fpa"])); h.append(c)
        for w in ["setoff", "setang", "setborder"]:
            if rng.random() < .6: h.append(setter(rng, 1, m, w))
        # neighbouring modules: compact offsets so that several compete
        z = dict(pos=zp, neg=zn, both=rng.choice([zp, zn]), unset=None, mix=rng.choice([zp, zn, None]))[style]
        if z is not None: m.z = z; h.append(dict(op="setz", m=1, x=z))
        rng_h = rng.random()
        h.append(dict(op="tadd", t=1, m=1))
        if t2 == tc and ID not in [q.ID for q in mods]: mods.append(m)
        if rng_h < .1: h.append(rng.choice([dict(op="taddnull", t=1), dict(op="tget", t=1)]))
        if rng_h > .7: h += [tquery(rng, 1, mods) for _ in range(3)] + [dict(op="text", t=1)]
    if rng.random() < .15: d, _ = layout(rng); h.append(dict(op="tpads", t=1, **d)); mods = mods or None
    if mods is None: return h + [dict(op="tget", t=1)]
    if rng.random() < .1:
        c, m = mkmod(rng, 2, tc); h += [c, dict(op="tpadsmod", t=1, m=2), dict(op="mget", m=2)]
    if rng.random() < .3: h.append(dict(op="tdrift", t=1, x=q1250(rng, 100000, 8000000)))
    if rng.random() < .3: h += [dict(op="tvel", t=1, x=rng.randrange(1, 100000)), dict(op="tfreq", t=1, x=rng.randrange(1, 100000))]
    h += [dict(op=o, t=1) for o in ("tget", "text", "tgetpads", "tgetfreq")]
    h += [tquery(rng, 1, mods) for _ in range(14)]
    for q in [m.ID for m in mods] + [99]:
        h.append(dict(op="mget", t=1, ID=q))
    for m in mods: h.append(ask(rng, m, dict(t=1, ID=m.ID), ALLOPS))
    return h
def module_look(rng, i, m):
    return [dict(op=o, m=i) for o in ("mget", "mext", "mtypes")] + [dict(op="mgetparam", m=i, n=n) for n in "ab"] + [ask(rng, m, dict(m=i), ALLOPS) for _ in range(2)]
def tpc_look(rng, i, mods):
    return [dict(op=o, t=i) for o in ("tget", "text")] + [dict(op="tgetparam", t=i, n=n) for n in "ab"] + [tquery(rng, i, mods) for _ in range(3)] + [ask(rng, m, dict(t=i, ID=m.ID), ALLOPS) for m in mods] \
        + [dict(op="mgetparam", t=i, ID=m.ID, n="a") for m in mods] + [dict(op="mget", t=i, ID=m.ID) for m in mods]
def tpc_copy_history(rng):
    h = []; mo = {}; tp = {}; nm = [0]; nt = [0]
    for _ in range(rng.randrange(12, 40)):
        x = rng.random()
        if not mo or x < .12:
            nm[0] += 1; p, m = placed(rng, nm[0], rng.choice([1, 2]), ID=rng.choice([0, 1, 2, 3, 4])); h += p; mo[nm[0]] = m; continue
        i = rng.choice(sorted(mo)); m = mo[i]
        if x < .22: nm[0] += 1; h.append(dict(op=rng.choice(["mcopy", "mclone"]), m=nm[0], **{"from": i})); mo[nm[0]] = m.copy()
        elif x < .30: j = rng.choice(sorted(mo)); h.append(dict(op="massign", m=i, **{"from": j})); mo[i] = mo[j].copy()
        elif x < .36: h.append(setter(rng, i, m))
        elif x < .42: h.append(dict(op="mparam", m=i, n=rng.choice("ab"), x=rng.randrange(1, 99)))
        elif x < .46 and len(mo) > 1: h.append(dict(op="mdel", m=i)); del mo[i]
        elif x < .52 or not tp:
            nt[0] += 1; tc = rng.choice([1, 2]); h.append(dict(op="tnew", t=nt[0], plain=0, drift=q1250(rng, 100000, 8000000), tc=tc)); tp[nt[0]] = (tc, [])
        else:
            t = rng.choice(sorted(tp)); tc, l = tp[t]
            if x < .66:
                h.append(dict(op="tadd", t=t, m=i))
                if m.tc == tc and m.ID not in [q.ID for q in l]: l.append(m); del mo[i]
            elif x < .74: nt[0] += 1; h.append(dict(op="tcopy", t=nt[0], **{"from": t})); tp[nt[0]] = (tc, [q.copy() for q in l])
            elif x < .82: s = rng.choice(sorted(tp)); h.append(dict(op="tassign", t=t, **{"from": s})); tp[t] = (tp[s][0], [q.copy() for q in tp[s][1]])
            elif x < .86 and len(tp) > 1: h.append(dict(op="tdel", t=t)); del tp[t]
            elif x < .9: h.append(rng.choice([dict(op="tdrift", t=t, x=q1250(rng, 100000, 8000000)), dict(op="tvel", t=t, x=rng.randrange(9)), dict(op="tparam", t=t, n=rng.choice("ab"), x=rng.randrange(1, 99)), dict(op="tfreq", t=t, x=rng.randrange(1, 9))]))
            else: h += tpc_look(rng, t, tp[t][1]) if rng.random() < .5 else module_look(rng, i, m)
    for i, m in sorted(mo.items()): h += module_look(rng, i, m)
    for t, l in sorted(tp.items()): h += tpc_look(rng, t, l[1])
    return h
class P11(pads.P11):
    """copies of layouts (PadPlane), of modules and TPCs (TPC) and of parameter sections (ParamStore)"""
    drivers = ("pads", "tpc", "params"); scales = (32,)
    assumptions = Tpc.assumptions
    def tok(self, c): return registry.P02.tok(self, c) if "o" in c else tok(c)
    def sections(self, rng, deep):
        out = []; K = registry.KINDS; N = ["a", "b"]
        for _ in range(600 if deep else 80):
            h = []; live = []; nid = 0
            look = lambda os: [{"op": "keys", "o": o, "k": k} for o in os for k in K] + [{"op": "get", "o": o, "k": k, "n": n} for o in os for k in K for n in N]
            for _ in range(rng.randrange(6, 50)):
                x = rng.random()
                if not live or x < .05: nid += 1; h.append({"op": "new", "o": nid}); live.append(nid)
                elif x < .18 and len(live) < 5: nid += 1; h.append({"op": "copy", "o": nid, "from": rng.choice(live)}); live.append(nid)
                elif x < .33: h.append({"op": "assign", "o": rng.choice(live), "from": rng.choice(live)})
                elif x < .38 and len(live) > 1: o = rng.choice(live); live.remove(o); h.append({"op": "drop", "o": o})
                elif x < .85: k = rng.choice(K); h.append({"op": "set", "o": rng.choice(live), "k": k, "n": rng.choice(N), "v": registry.rnd_val(rng, k)})
                else: h += look([rng.choice(live)])
            out.append(h + look(live))
        return out
    def parts(self, rng, deep):
        t = []
        for h in mc_histories(self, rng, 2000 if deep else 220, deep, want=lambda h: any(c["op"] in ("mcopy", "mclone", "massign", "tcopy", "tassign", "mdel", "tdel") for c in h)):
            mo, tp = play(h); q = []
            for i, m in sorted(mo.items()): q += module_look(rng, i, m)
            for i, l in sorted(tp.items()): q += tpc_look(rng, i, l[1])
            t.append(h + q)
        t += [tpc_copy_history(rng) for _ in range(2500 if deep else 150)]
        return [("pads", "PadPlaneTrace", self.histories(rng, deep), None), ("tpc", "TPCTrace", t, None), ("params", "ParamStoreTrace", self.sections(rng, deep), None)]
