"""P22 printing: turns the printed text into records (pure parsing, no judgement) and generates histories."""
import re, json
from vlib import *
from detector import *
import detector as D

TITLES = {"VXD": "VXD", "SIT": "SIT", "SET": "SET", "Ecal barrel": "EcalBarrel", "Ecal endcap": "EcalEndcap", "Ecal plug": "EcalPlug",
          "Yoke barrel": "YokeBarrel", "Yoke endcap": "YokeEndcap", "Yoke plug": "YokePlug", "Hcal barrel": "HcalBarrel", "Hcal endcap": "HcalEndcap",
          "Hcal ring": "HcalRing", "Lcal": "Lcal", "LHcal": "LHcal", "BeamCal": "BeamCal", "TrackerPlanes": "TrackerPlanes", "SiPlanes": "SiPlanes"}
HEADS = {"BField": "BF", "TPCParameters": "Tpc", "TPCModule": "Mod", "FTDParameters": "Ftd", "SiPlanesParameters": "Sip", "TrackerPlanesParameters": "Trp"}
PK = {"int": "int", "double": "double", "string": "string", "IntVec": "ints", "DoubleVec": "doubles", "StringVec": "strings"}
def fx(s): return int(round(float(s) * 1e5))
NUM = r"([-+0-9.eEinfa]+)"

def block(title, kind):
    # a number that the text does not show is 'none', which equals no configured value
    none = -2147483647
    kv = {k: none for k in KEYS.get(kind, [])}
    for k in ("b", "off"):
        if k in kv: kv[k] = [none] * 3
    if "z" in kv: kv["z"] = [none, none]
    return {"title": title, "kind": kind, "pars": [], "kv": kv, "rows": [], "mods": []}
KEYS = {"BF": ["b"], "Cal": ["t", "sym", "phi0", "n", "rMin", "rMax", "zMin", "zMax"], "Zpl": ["typ", "n", "s0", "s1", "s2", "s3"], "Ftd": ["n"],
        "Sip": ["id", "typ", "num", "n"], "Trp": ["id", "num", "n"], "Tpc": ["drift", "coord", "n"], "Mod": ["ro", "npads", "nrows", "off", "z", "ang"]}

def parse_print(text, sole=None):
    """sole: kind of the only part printed (None: the whole description)"""
    res = {"name": [], "titles": [], "blocks": [], "secs": [], "mats": [], "odd": []}
    lines = text.split("\n")
    cur = None; title = ""; zone = "parts"; wait = None
    if sole == "Cal":
        cur = block("", "Cal"); res["blocks"].append(cur)
    def start(kind):
        nonlocal cur
        cur = block(title, kind); res["blocks"].append(cur)
    i = 0
    while i < len(lines):
        l = lines[i]; i += 1
        if not l.strip(): continue
        if wait == "name":
            wait = None
            if "NOT FOUND" not in l: res["name"] = [l[9:]]
            continue
        m = re.match(r"^   ----  (\S.*?)\s+----\s*$", l)
        if m and sole is None:
            t = m.group(1)
            if t == "DetectorName": wait = "name"; continue
            title = TITLES.get(t, t); cur = None
            if title in SLOTS: res["titles"].append(title)
            continue
        m = re.match(r"^\s*-----------   (\w+)\s+-------\s*$", l)
        if m and m.group(1) in HEADS:
            k = HEADS[m.group(1)]
            if k == "Mod":
                mod = block("", "Mod"); cur["mods"].append(mod); continue
            title = title if k in ("Sip", "Trp") else ""
            start(k); continue
        if l.strip() == "--- ZPlanarParameters:":
            t = title if title in ("VXD", "SIT", "SET") else ""
            start("Zpl"); cur["title"] = t; title = ""
            continue
        if l.startswith("   parameter sections (detectors) :") and sole is None: zone = "secs"; cur = None; continue
        m = re.match(r"^   ------  name : (.*) ------- $", l)
        if m and zone == "secs":
            cur = block(m.group(1), "Sec"); res["secs"].append(cur); continue
        if l.startswith("   materials :") and sole is None: zone = "mats"; cur = None; continue
        if zone == "mats":
            m = re.match(r"^    (.*), A= %s, Z= %s, density \[kg/m3\]= %s, radiation length \[mm\]= %s, interaction length \[mm\]= %s$" % ((NUM,) * 5), l)
            if m: res["mats"].append([m.group(1)] + ["%.9e" % float(x) for x in m.groups()[1:]])
            elif "------" not in l: res["odd"].append(l)
            continue
        m = re.match(r"^    \[(\w+)\]\s+(.*?) \t (.*)$", l)
        if m and m.group(1) in PK:
            if cur is None: start("Cal")
            k = PK[m.group(1)]; v = m.group(3)
            vals = v.split(" , ")[:-1] if k.endswith("s") else [v]
            if k.startswith("double"): vals = ["%.9e" % float(x) for x in vals]
            tgt = cur["mods"][-1] if cur["mods"] else cur
            tgt["pars"].append([k, m.group(2), vals])
            continue
        if cur is None:
            if re.match(r"^  calorimeter type:", l): start("Cal")
            else: continue
        K = cur["kind"]; kv = cur["kv"]
        def g(rx, *names, conv=fx, to=kv):
            m = re.search(rx, l)
            if m:
                for n, x in zip(names, m.groups()): to[n] = conv(x)
            return m
        if K == "BF":
            m = re.search(r"Bx = %s , By = %s , Bz = %s " % ((NUM,) * 3), l)
            if m: kv["b"] = [fx(x) for x in m.groups()]
        elif K == "Cal":
            m = re.search(r"calorimeter type:\s+(\w+)", l)
            if m: kv["t"] = {"barrel": 0, "endcap": 1}[m.group(1)]
            g(r"symmetry order:\s+(-?\d+)", "sym", conv=int); g(r"phi0:\s+" + NUM, "phi0")
            for n in ("rMin", "rMax", "zMin", "zMax"): g(r"^\s+%s:\s+%s" % (n, NUM), n)
            g(r"#total (\d+)", "n", conv=int)
            m = re.search(r"id: (\d+) thickness: %s absorber thickness: %s distance: %s cellsize-0: %s cellsize-1: %s" % ((NUM,) * 5), l)
            if m: cur["rows"].append([int(m.group(1))] + [fx(x) for x in m.groups()[1:]])
        elif K in ("Zpl", "Ftd"):
            m = re.match(r"^\s+type :  (\w+)", l)
            if m: kv["typ"] = {"CCD": 1, "CMOS": 2, "HYBRID": 3}.get(m.group(1), -1)
            g(r"Shell innerR : %s outerR : %s" % (NUM, NUM), "s0", "s1"); g(r"length : %s gap %s" % (NUM, NUM), "s2", "s3")
            g(r"Layers : (\d+)", "n", conv=int)
            m = re.match(r"^  \|\s*(-?\d+)\s*((\|\s*[-0-9.]+\s*){8})\|$", l)
            if m: cur["rows"].append([int(m.group(1))] + [fx(x) for x in m.group(2).strip("|").split("|")])
        elif K in ("Sip", "Trp"):
            g(r"Setup ID : (-?\d+)", "id", conv=int); g(r"Number of telescope planes : (-?\d+)", "num", conv=int); g(r"Number of layers : (-?\d+)", "n", conv=int)
            m = re.search(r"Telescope type :  (\w+)", l)
            if m: kv["typ"] = {"TelescopeWithDUT": 1, "TelescopeWithoutDUT": 2}.get(m.group(1), -1)
            if l.strip().startswith("DUT parameters"): kv["dut"] = 1
            if K == "Sip" and "--" not in l and re.match(r"^  (\|\s*[-0-9.]+\s*)+\|$", l):
                c = l.strip().strip("|").split("|")
                cur["rows"].append([fx(x) if "." in x else int(x) for x in c])
            if K == "Trp" and not l.startswith("|--") and l.startswith("|"):
                c = l.split("|")
                if len(c) == 5:
                    def head(s):
                        m = re.match(r"^\s*(-?\d+)( .*)?$", s)
                        return (int(m.group(1)), (m.group(2) or "").strip(" ")) if m else None
                    if c[1].strip() and not c[1].strip().startswith(("layer", "ID")):
                        h = head(c[1]); cur["rows"].append({"t": "L", "id": h[0], "info": h[1], "v": []})
                    elif c[2].strip() and "ladder" not in c[2] and "info" not in c[2]:
                        m = re.match(r"^(.*?)((\s[ ]*-?[0-9]\S*){10})$", c[2])
                        h = head(m.group(1)); cur["rows"].append({"t": "M", "id": h[0], "info": h[1], "v": [fx(x) for x in m.group(2).split()]})
                    elif c[3].strip() and "sensitive" not in c[3] and "info" not in c[3]:
                        a, b = c[3].rsplit("`", 1)
                        m = re.match(r"^(.*?)((\s[ ]*-?[0-9]\S*){10})$", a)
                        h = head(m.group(1)); b = b.split()
                        cur["rows"].append({"t": "S", "id": h[0], "info": h[1], "v": [fx(x) for x in m.group(2).split()] + [int(b[0]), int(b[1])] + [fx(x) for x in b[2:]]})
        elif K == "Tpc":
            if cur["mods"]:
                to = cur["mods"][-1]["kv"]
                g(r"Readout frequency :\s+" + NUM, "ro", to=to); g(r"Number of pads :\s+(\d+)", "npads", conv=int, to=to); g(r"Number of Rows :\s+(\d+)", "nrows", conv=int, to=to)
                m = re.search(r"Offset :\s+%s  ;  %s" % (NUM, NUM), l)
                if m: to["off"] = [fx(m.group(1)), fx(m.group(2))]
                m = re.search(r"zPosition :\s+(.*)$", l)
                if m: to["z"] = [] if "no z Position" in m.group(1) else [fx(m.group(1))]
                g(r"Angle :\s+" + NUM, "ang", to=to)
            else:
                g(r"maxDriftLength :\s+" + NUM, "drift"); g(r"Number of modules :\s+(\d+)", "n", conv=int)
                m = re.search(r"coordinateType :\s+(\w+)", l)
                if m: kv["coord"] = {"cartesian": 1, "polar": 2}.get(m.group(1), -1)
    return res

def small(x):
    """numbers with at most six significant digits, as the stream shows them"""
    return "%.9e" % float("%.5g" % float(x))
def tidy(v):
    if isinstance(v, dict):
        return {k: ([[p[0], p[1], [small(x) for x in p[2]] if p[0].startswith("double") else p[2]] for p in q] if k == "pars" else tidy(q)) for k, q in v.items()}
    if isinstance(v, list): return [tidy(x) for x in v]
    return v

class P22(XMLCheck):
    prop = "P22"; trace = "PrintTrace"
    def tok(self, c):
        return ["print", c["m"], c["s"]] if c["op"] == "print" else tok(c)
    def post(self, evs):
        for e in evs:
            if e["op"] == "print" and e["r"]["x"] == "ok":
                s = e["s"]; v = e["r"]["v"]
                try: rec = parse_print(v["text"], None if s == "all" else "Cal" if s in CALS else s)
                except Exception as x:
                    if os.environ.get("P22_DEBUG"): open("/tmp/p22.txt", "w").write(v["text"]); raise
                    rec = {"name": [], "titles": [], "blocks": [], "secs": [], "mats": [], "odd": ["cannot be read: %r" % x]}
                rec["again"] = v["again"]; e["r"]["v"] = rec
        return evs
    def histories(self, rng, deep):
        self.nspec = 3000 if deep else 200
        base = self.spec_part(rng, SLOTS)
        out = []
        def prt(m, s): return {"op": "print", "m": m, "s": s}
        for h in base:
            h = [dict(c) for c in h]; live = set(); g = []
            for c in h:
                if c["op"] in ("put", "field"): c["v"] = tidy(c["v"])
                if c["op"] == "sec": c["v"] = tidy({"pars": c["v"]})["pars"]
                if c["op"] == "mat": c["v"] = [small(x) for x in c["v"]]
                g.append(c)
                if "m" in c: live.add(c["m"])
            g = [c for c in g if c["op"] not in ("same",)]
            for m in sorted(live): g.append(prt(m, "all"))
            out.append(g)
        for k in range(2500 if deep else 220):
            h = [{"op": "new", "m": 1}]; secs = []; mats = []
            n = rng.choice([0, 1, 1, 2, 4, 9, 19]); ss = rng.sample(SLOTS, n)
            for s in ss:
                v = tidy(part(rng, s))
                if s == "TrackerPlanes" and rng.random() < .2:
                    for l in v["layers"]:
                        for q in [l] + l["mat"] + l["sen"]:
                            if rng.random() < .5: q["info"] = "t" * rng.choice([40, 1500, 5000])
                h.append(put(1, s, v))
            if rng.random() < .6: h.append({"op": "name", "m": 1, "n": rng.choice(NAMES)})
            if rng.random() < .6: h.append({"op": "field", "m": 1, "v": tidy({"b": [num(rng) for _ in range(3)], "pars": pars(rng)})})
            for x in rng.sample(NAMES, rng.choice([0, 1, 3])):
                secs.append(x); h.append({"op": "sec", "m": 1, "n": x, "v": tidy({"pars": pars(rng, rng.choice([0, 1, 4, 12]))})["pars"]})
            for x in rng.sample(NAMES, rng.choice([0, 1, 3])):
                mats.append(x); h.append({"op": "mat", "m": 1, "n": x, "v": [small(tok_of(rng, "double")) for _ in range(5)]})
            h += [{"op": "obs", "m": 1, "s": s} for s in ss]
            for s in rng.sample(ss, min(3, n)) + [rng.choice(SLOTS), "BField"]: h.append(prt(1, s))
            h.append(prt(1, "all"))
            h += look(1, ss, secs, mats)
            out.append(h)
        return out
    def corruptible(self, e):
        return e["op"] == "print" and bool(e["r"]["v"]["blocks"])
    def mutate(self, rng, v):
        if isinstance(v, dict) and "blocks" in v:
            b = rng.choice(v["blocks"]); w = rng.random()
            if w < .3: v["blocks"].remove(b)
            elif w < .6 or not b["rows"]: b["pars"].append(["int", "zz", ["1"]])
            elif isinstance(b["rows"][0], list): b["rows"][0][1] += 200000
            else: b["rows"][0]["id"] += 1
            return v
        return v
