"""P07: description files as trees of elements; the tree is what the specification interprets, its text is what the code reads."""
import random, math
from vlib import *
from engine import Check
from detector import *
import detector as D

# ---------------------------------------------------------------- text of a tree
INTS = {"symmetry", "repeat", "nLadders", "nPetals", "nSensors", "isDoubleSided", "ID", "number", "npixelX", "npixelY", "repeatRows", "nPad", "maxRow", "nRow", "nPadsInRow", "moduleIDStartCount", "zsign0"}
ANG = {628319: 2 * math.pi, 314159: math.pi, 157080: math.pi / 2, 471239: 1.5 * math.pi, 78540: math.pi / 4}
def esc(rng, s, q):
    o = ""
    for ch in s:
        if rng.random() < .02 and " " < ch < "\x7f": o += rng.choice(["&#%d;", "&#x%x;", "&#x%X;"]) % ord(ch)     # a character reference says the same
        elif ch == "&": o += "&amp;"
        elif ch == "<": o += "&lt;"
        elif ch == ">": o += rng.choice([">", "&gt;"])
        elif ch == q: o += "&quot;" if q == '"' else "&apos;"
        elif ch == "\t": o += "&#x09;"
        else: o += ch
    return o
def attr_text(rng, tag, k, v):
    if isinstance(v, str):
        if tag == "layout" and k == "type": v = rng.choice([v, v.capitalize(), v.upper()])
        return v
    if k in INTS or (tag in ("LayoutType",) and k == "type") or tag == "moduleID": return str(v)
    if k in ("phiMin", "phiMax") and abs(v) in ANG: return repr(math.copysign(ANG[abs(v)], v))
    x = v / 1e5
    return rng.choice(["%.5f" % x, "%.9e" % x, repr(x), "%.5f" % x])
COMMENTS = ["<!-- a remark -->", "<!-- <detector name=\"x\"/> -->", "<!---->"]
def gap(rng):
    return rng.choice(["", "\n", "\n  ", " ", "\n\t"]) + (rng.choice(COMMENTS) + "\n" if rng.random() < .04 else "")
def text(rng, n, plain=False):
    q = rng.choice(['"', "'"])
    at = list(n["a"].items()); rng.shuffle(at)
    at = [(k, attr_text(rng, n["t"], k, v)) for k, v in at]
    body = ""
    if "v" in n and n["t"] == "parameter":
        single = len(n["v"]) == 1
        val = (rng.choice([" ", " ", "  "]) if not single else " ").join(n["v"])
        if rng.random() < .2: val = " " + val + "  "
        asText = rng.random() < .25 and "  " not in val and "\t" not in val
        if n["v"] == [] and rng.random() < .4: pass
        elif asText: body = esc(rng, val, None)
        else: at.insert(rng.randrange(len(at) + 1), ("value", val))
    a = "".join(rng.choice([" ", " ", "\n   "]) + "%s%s=%s%s%s%s" % (k, "", "", q, esc(rng, v, q), q) for k, v in at)
    if not n["c"] and not body:
        return "<%s%s%s/>" % (n["t"], a, rng.choice(["", " "])) if rng.random() < .7 else "<%s%s></%s>" % (n["t"], a, n["t"])
    if body: return "<%s%s>%s</%s>" % (n["t"], a, body, n["t"])
    return "<%s%s>%s%s</%s>" % (n["t"], a, "".join(gap(rng) + text(rng, c) for c in n["c"]), gap(rng), n["t"])
def document(rng, tree, kind):
    head = rng.choice(["", '<?xml version="1.0" encoding="UTF-8"?>\n', "<!-- top -->\n"])
    body = text(rng, tree)
    if any(ord(ch) > 127 for ch in body): head = head.replace("UTF-8", "ISO-8859-1")
    s = head + body + rng.choice(["", "\n"])
    if kind == "xml": return s
    if kind == "empty": return rng.choice(["", " \n", "<!-- nothing -->"])
    if kind == "cut":
        end = s.rindex("</" + tree["t"]) if ("</" + tree["t"]) in s else len(s) - 3
        lo = s.index("<" + tree["t"]) + 1
        return s[:rng.randint(lo + 2, max(lo + 2, end))]
    if kind == "twice":           # an attribute given twice
        i = s.index("<" + tree["t"]) + 1 + len(tree["t"]); return s[:i] + " q='1' q='2'" + s[i:]
    if kind == "mismatch":
        if "</" not in s: return s[:s.rindex("/>")] + ">"
        i = s.rindex("</"); return s[:i] + "</wrong" + s[i + 2:]
    raise KeyError(kind)

# ---------------------------------------------------------------- tree of a part
def N(t, a=None, c=None): return {"t": t, "a": a or {}, "c": c or []}
def par_nodes(ps):
    T = {"int": "int", "double": "double", "string": "string", "ints": "IntVec", "doubles": "DoubleVec", "strings": "StringVec"}
    return [dict(N("parameter", {"name": n, "type": T[k]}), v=list(v)) for k, n, v in ps]
def z(names, vals): return dict(zip(names, vals))
def opt(rng, a, d):
    """leave out attributes that have their default value, sometimes"""
    return {k: v for k, v in a.items() if not (k in d and v == d[k] and rng.random() < .6)}
ZQ = ["distance", "offset", "thickness", "length", "width", "radLength"]
FQ = ["rInner", "thickness", "lengthMin", "lengthMax", "width", "radLength"]
P3 = ["positionX", "positionY", "positionZ"]; R3 = ["rotationXY", "rotationZX", "rotationZY"]; S3 = ["sizeX", "sizeY", "thickness"]
PX = ["npixelX", "npixelY", "pitchX", "pitchY"]; R4 = ["rotation1", "rotation2", "rotation3", "rotation4"]
R3D = {k: 0 for k in R3}; R4D = dict(z(R4, [U, 0, 0, U]))
def lay_node(rng, l):
    a = l["a"]
    if l["k"] == "rect":
        return N("PadRowLayout2D", dict(opt(rng, dict(z(["xMin", "xMax", "yMin"], a), repeatRows=l["n"][0]), {"repeatRows": 1}), type="RectangularPadRowLayout"),
                 [N("row", opt(rng, z(["repeat", "nPad", "padWidth", "padHeight", "rowHeight", "leftOffset", "rightOffset"], r), {"repeat": 1, "rowHeight": 0, "leftOffset": 0, "rightOffset": 0})) for r in l["rows"]])
    if l["k"] == "fps":
        return N("PadRowLayout2D", dict(opt(rng, dict(z(["rMin", "rMax", "padHeight", "padWidth", "padGap", "phiMax"], a), maxRow=l["n"][0]), {"phiMax": PI2}), type="FixedPadSizeDiskLayout"))
    if l["k"] == "fpa":
        return N("PadRowLayout2D", dict(z(["rMin", "rMax", "phiMin", "phiMax"], a), nRow=l["n"][0], nPadsInRow=l["n"][1], type="FixedPadAngleDiskLayout"))
    return N("PadRowLayout2D", {"rMin": a[0], "type": "VersatileDiskRowLayout"},
             [N("row", opt(rng, z(["nPad", "padPitch", "rowHeight", "offset", "padWidth", "padHeight", "repeat"], r), {"offset": 0, "padWidth": 0, "padHeight": 0, "repeat": 1})) for r in l["rows"]])
def val(t, v): return N(t, {"value": v})
def mod_node(rng, m):
    c = [val("moduleID", m["id"]), val("readoutFrequency", m["ro"]), lay_node(rng, m["layout"])]
    if m["off"] != [0, 0] or rng.random() < .3: c.append(N("offset", z(["x_r", "y_phi"], m["off"])))
    if m["z"]: c.append(val("zPosition", m["z"][0]))
    if m["ang"] or rng.random() < .3: c.append(val("angle", m["ang"]))
    if m["bor"] or rng.random() < .3: c.append(val("enlargeActiveAreaBy", m["bor"]))
    rng.shuffle(c)
    return N("module", {}, c + par_nodes(m["pars"]))
def modules(rng, ms):
    """module elements, sharing what several have in common through default elements"""
    out = []; cur = None; secs = []; start = 0
    sec = N("modules", {}, [])
    groups = [ms] if rng.random() < .6 or len(ms) < 2 else [ms[:len(ms) // 2], ms[len(ms) // 2:]]
    for g in groups:
        nodes = [mod_node(rng, m) for m in g]
        sec = N("modules", {}, nodes)
        if rng.random() < .6 and nodes:
            # take some elements of the last module as the defaults and remove the same from modules that have equal ones
            tags = rng.sample(["readoutFrequency", "PadRowLayout2D", "enlargeActiveAreaBy", "angle", "offset", "zPosition"], rng.choice([1, 2, 4]))
            src = {c["t"]: c for c in nodes[-1]["c"] if c["t"] in tags}
            d = N("default", {}, list(src.values()))
            for n in nodes:
                keep = []
                for c in n["c"]:
                    if c["t"] in src and c == src[c["t"]] and rng.random() < .8: continue
                    keep.append(c)
                # what the module leaves out on purpose must not come from the defaults
                have = {c["t"] for c in keep} | {c["t"] for c in n["c"]}
                for t in src:
                    if t not in have:
                        if t in ("enlargeActiveAreaBy", "angle"): keep.append(val(t, 0))
                        elif t == "offset": keep.append(N("offset", {"x_r": 0, "y_phi": 0}))
                        elif t == "zPosition": d["c"] = [x for x in d["c"] if x["t"] != "zPosition"] ; 
                n["c"] = keep
            if "zPosition" in src and not any(x["t"] == "zPosition" for x in d["c"]):
                for n in nodes:   # dropped from the defaults again: give it back
                    if not any(c["t"] == "zPosition" for c in n["c"]) and g[nodes.index(n)]["z"]: n["c"].append(val("zPosition", g[nodes.index(n)]["z"][0]))
            pos_ = rng.choice([0, 0, len(nodes), rng.randint(0, len(nodes))])
            sec["c"] = nodes[:pos_] + [d] + nodes[pos_:]
        if rng.random() < .15: sec["c"].insert(rng.randint(0, len(sec["c"])), N("remark", {}, []))
        # consecutive identifiers may be left to the reader
        ids = [m["id"] for m in g]
        if ids and ids == list(range(ids[0], ids[0] + len(ids))) and rng.random() < .8:
            sec["a"]["moduleIDStartCount"] = ids[0]
            if ids[0] == 0 and rng.random() < .5: del sec["a"]["moduleIDStartCount"]
            for n in nodes:
                if rng.random() < .7: n["c"] = [c for c in n["c"] if c["t"] != "moduleID"]
        secs.append(sec)
    return secs
def det_node(rng, slot, p, name=None):
    k = p["k"]; ps = par_nodes(p["pars"])
    if k == "Cal":
        ext = ["inner_r", "outer_z"] if p["t"] == 0 else ["inner_r", "outer_r", "inner_z"]
        groups = []
        for l in p["layers"]:
            if groups and groups[-1][1:] == l[:4] and rng.random() < .7: groups[-1][0] += 1
            else: groups.append([1] + l[:4])
        if rng.random() < .1: groups.insert(rng.randint(0, len(groups)), [0] + layer_vals(rng))
        c = [N("layout", {"type": "barrel" if p["t"] == 0 else "endcap", "symmetry": p["sym"], "phi0": p["phi0"]}), N("dimensions", z(ext, p["ext"]))]
        c += [N("layer", z(["repeat", "thickness", "cellSize0", "cellSize1", "absorberThickness"], g)) for g in groups]
        ty = "CalorimeterParameters"
    elif k == "Zpl":
        c = [N(rng.choice(["type", "vxdType"]), {"technology": ["", "CCD", "CMOS", "HYBRID"][p["typ"]]}), N("shell", z(["innerRadius", "outerRadius", "halfLength", "gap", "radLength"], p["shell"])),
             N("layers", {}, [N("layer", {"nLadders": l[0], "phi0": l[1]}, [N("ladder", z(ZQ, l[2:8])), N("sensitive", z(ZQ, l[8:]))]) for l in p["layers"]])]
        ty = rng.choice(["ZPlanarParameters", "ZPlanarParameters", "VXDParameters"])
    elif k == "Ftd":
        c = [N("layers", {}, [N("layer", dict(z(["nPetals", "nSensors", "isDoubleSided"], l), sensorType=["", "PIXEL", "STRIP"][l[3]], **z(["petalOpenningAngle", "phi0", "alpha", "zposition", "zoffset", "zsign0"], l[4:10])),
                               [N("support", z(FQ, l[10:16])), N("sensitive", z(FQ, l[16:]))]) for l in p["layers"]])]
        ty = "FTDParameters"
    elif k == "Sip":
        c = [N("siplanesID", {"ID": p["id"]}), N("siplanesType", {"type": "TelescopeWithDUT" if p["typ"] == 1 else "TelescopeWithoutDUT"}), N("siplanesNumber", {"number": p["num"]})]
        for a, s in p["dut"]:
            c.append(N("dut", {}, [N("dut_ladder", z(["ID"] + P3 + S3 + ["radLength"], a)), N("dut_sensitive", opt(rng, z(["ID"] + P3 + S3 + PX + ["resolution"] + R4 + ["radLength"], s), R4D))]))
        c.append(N("layers", {}, [N("layer", {}, [N("ladder", opt(rng, z(["ID"] + P3 + R3 + S3 + ["radLength"], a), R3D)),
                 N("sensitive", opt(rng, z(["ID"] + P3 + R3 + S3 + PX + ["resolution", "resolutionX", "resolutionY"] + R4 + ["radLength"], s), dict(R3D, **R4D)))]) for a, s in p["layers"]]))
        ty = "SiPlanesParameters"
    elif k == "Trp":
        TD = dict(z(P3 + R3 + ["thickness", "radLength", "pitchX", "pitchY", "resolutionX", "resolutionY"], [0] * 20), sizeX=U, sizeY=U, npixelX=1, npixelY=1, info="")
        c = [N("LayoutID", {"ID": p["id"]}), N("LayoutNumberOfLayers", {"number": p["num"]})]
        if p["typ"] or rng.random() < .5: c.append(N("LayoutType", {"type": p["typ"]}))
        c.append(N("layers", {}, [N("layer", opt(rng, {"ID": l["id"], "info": l["info"]}, TD),
                 [N("ladder", opt(rng, dict(z(P3 + R3 + S3 + ["radLength"], m["v"]), ID=m["id"], info=m["info"]), TD)) for m in l["mat"]] +
                 [N("sensitive", opt(rng, dict(z(P3 + R3 + S3 + ["radLength"] + PX + ["resolutionX", "resolutionY"], m["v"]), ID=m["id"], info=m["info"]), TD)) for m in l["sen"]]) for l in p["layers"]]))
        ty = "TrackerPlanesParameters"
    elif k == "Tpc":
        c = [val("maxDriftLength", p["drift"])]
        if p["single"]:
            c += [val("driftVelocity", p["vel"]), val("readoutFrequency", p["mods"][0]["ro"]), lay_node(rng, p["mods"][0]["layout"])]
        else:
            c.append(N("coordinateType", {"value": "cartesian" if p["coord"] == 1 else "polar"}))
            if p["vel"] or rng.random() < .5: c.append(val("driftVelocity", p["vel"]))
            c += modules(rng, p["mods"])
        ty = "TPCParameters"
    else: raise KeyError(k)
    # the order of different elements does not matter, that of equal ones does
    if rng.random() < .4:
        order = [(rng.random() if x["t"] not in ("layer", "modules") else None, x) for x in c + ps]
        fixed = [x for r, x in order if r is None]; free = [x for r, x in order if r is not None]
        rng.shuffle(free)
        seen = {}
        ps = []; c = list(free)
        i = 0
        for x in fixed:
            i = rng.randint(i, len(c)); c.insert(i, x); i += 1
        # parameters of one name keep their order (later wins)
    n = N("detector", {"name": name, "geartype": ty}, c + ps)
    return n
NAMES_OF = {"EcalBarrel": ["EcalBarrel", "ecal", "myECAL_b"], "EcalEndcap": ["EcalEndcap", "Ecal", "xEcalx"], "EcalPlug": ["EcalPlug", "plugEcal", "ECALPLUG"],
            "YokeBarrel": ["YokeBarrel", "yoke"], "YokeEndcap": ["YokeEndcap", "YOKE"], "YokePlug": ["YokePlug", "yoke-plug"],
            "HcalBarrel": ["HcalBarrel", "hcal", "AHcal"], "HcalEndcap": ["HcalEndcap", "HCAL"], "HcalRing": ["HcalRing", "ring_hcal"],
            "Lcal": ["Lcal", "LCAL", "myLcal"], "LHcal": ["LHcal", "lhcal"], "BeamCal": ["BeamCal", "BEAMCAL"],
            "VXD": ["VXD", "vxd", "myVxdDet"], "SIT": ["SIT", "sit"], "SET": ["SET", "set"], "FTD": ["FTD", "any"], "SiPlanes": ["SiPlanes", "tele"], "TrackerPlanes": ["TrackerPlanes", "tp"], "TPC": ["TPC", "tpc"]}
WORDS_ = ["ecal", "plug", "yoke", "lcal", "lhcal", "beamcal", "hcal", "ring", "vxd", "sit", "set"]
def words(t):
    w = {}
    for n in walk(t):
        nm = n["a"].get("name")
        if n["t"] == "detector" and isinstance(nm, str): w[nm] = {"has": [x for x in WORDS_ if x in nm.lower()]}
    return w or {"-": {"has": []}}
def walk(t):
    yield t
    for c in t["c"]: yield from walk(c)

def xpart(rng, slot):
    p = part(rng, slot)
    if slot == "TPC":
        for m in p["mods"]:
            l = m["layout"]
            if l["k"] == "rect":
                if l["n"][0] == 0: l["n"][0] = 1
                for r in l["rows"]:
                    if rng.random() < .3: r[4] = 0
        if not p["single"] and rng.random() < .4:
            s = rng.choice([0, 0, 3])
            for j, m in enumerate(p["mods"]): m["id"] = s + j
        if not p["single"] and rng.random() < .4:   # modules alike
            for m in p["mods"][1:]:
                for q in ("layout", "ro", "bor", "ang"):
                    if rng.random() < .6: m[q] = json.loads(json.dumps(p["mods"][-1][q]))
    if slot == "SiPlanes" and rng.random() < .5:
        for a, s in p["layers"]:
            a[4:7] = [0, 0, 0]; s[4:7] = [0, 0, 0]
            s[17:21] = [U, 0, 0, U]
    if slot == "TrackerPlanes" and rng.random() < .5:
        for l in p["layers"]:
            for m in l["mat"] + l["sen"]:
                m["v"][:10] = [0, 0, 0, 0, 0, 0, U, U, 0, 0]
    return p
def tree(rng, slots=None):
    if slots is None: slots = rng.sample(SLOTS, rng.choice([0, 1, 1, 2, 3, 6]))
    parts = {s: xpart(rng, s) for s in slots}
    dets = [det_node(rng, s, p, name=pickname(rng, s, p)) for s, p in parts.items()]
    names = []
    for n in rng.sample(D.NAMES, rng.choice([0, 0, 1, 3])):
        names.append(n); dets.append(N("detector", {"name": n, "geartype": "GearParameters"}, par_nodes(pars(rng))))
    rng.shuffle(dets)
    c = [N("detectors", {}, dets)]
    if rng.random() < .7: c.append(N("global", {"detectorName": rng.choice(D.NAMES)}))
    if rng.random() < .6: c.append(N("BField", {"type": "ConstantBField", "x": num(rng), "y": num(rng), "z": num(rng)}, par_nodes(pars(rng))))
    if rng.random() < .1: c.append(N("GDMLFile", {"name": "nosuch.gdml"}))
    mats = []
    if rng.random() < .5:
        mats = rng.sample(D.NAMES, rng.choice([0, 1, 3]))
        c.append(N("materials", {}, [N("material", dict(z(["A", "Z", "density", "radLength", "intLength"], [tok_of(rng, "double") for _ in range(5)]), name=n)) for n in mats]))
    rng.shuffle(c)
    return N(rng.choice(["gear", "gear", "anything"]), {}, c), parts, names, mats
def pickname(rng, s, p):
    nm = rng.choice(NAMES_OF[s])
    if p["k"] == "Cal" and s[:4] in ("Ecal", "Yoke", "Hcal") and not s.endswith(("Plug", "Ring")):
        pass
    return nm
BAD = {"layout": ("type", ["plug", "unknown", ""]), "coordinateType": ("value", ["Cartesian", "spherical"]), "PadRowLayout2D": ("type", ["NoSuchLayout", "rectangular"]),
       "detector": ("geartype", ["NoSuchParameters", "tpcparameters", ""])}
ENUM = {"type": ("technology", ["ccd", "DEPFET"]), "vxdType": ("technology", ["X"]), "layer": ("sensorType", ["pixel", "OTHER"]), "siplanesType": ("type", ["Telescope", ""])}
NOLAY = {"RectangularPadRowLayout": ({"repeatRows": [0, -1]}, {"repeat": [0, -2], "nPad": [0, -1], "padWidth": [-U], "padHeight": [-U], "rowHeight": [-U], "leftOffset": [-U], "rightOffset": [-U]}),
         "FixedPadSizeDiskLayout": ({"padHeight": [0, -U], "padWidth": [0, -U]}, {}), "FixedPadAngleDiskLayout": ({"nRow": [0, -3], "nPadsInRow": [0, -1]}, {}),
         "VersatileDiskRowLayout": ({}, {"nPad": [0, -4], "rowHeight": [0, -U], "padWidth": [-U], "repeat": [0, -1]})}
def mutate(rng, t):
    """one change of the tree; returns True if it may add a disallowed value (as opposed to a missing part)"""
    w = rng.random()
    nodes = list(walk(t))
    byt = {}
    for n in nodes: byt.setdefault(n["t"], []).append(n)
    pick = lambda: rng.choice(byt[rng.choice(sorted(byt))])       # every kind of element equally likely
    if w < .42:
        n = pick()
        for _ in range(20):
            if n["a"]: break
            n = pick()
        if n["a"]:
            k = rng.choice(sorted(n["a"])); v = n["a"].pop(k)
            if rng.random() < .2: n["a"][k + "_"] = v
        return n["t"] in ("moduleID", "modules")
    if w < .75:
        n = pick()
        for _ in range(20):
            if n["c"]: break
            n = pick()
        if n["c"]:
            j = rng.randrange(len(n["c"])); x = n["c"][j]
            if rng.random() < .2: x["t"] += "_"
            else: del n["c"][j]
            return x["t"].startswith(("moduleID", "module", "default"))
        return False
    if w < .85:
        ts = sorted({n["t"] for n in nodes if n["t"] in BAD and BAD[n["t"]][0] in n["a"]})      # every kind equally likely
        if ts:
            t_ = rng.choice(ts); n = rng.choice([n for n in byt[t_] if BAD[t_][0] in n["a"]]); n["a"][BAD[n["t"]][0]] = rng.choice(BAD[n["t"]][1])
        return False
    lays = [n for n in byt.get("PadRowLayout2D", []) if n["a"].get("type") in NOLAY]
    if w < .93 and lays and rng.random() < .5:          # an impossible layout
        n = rng.choice(lays); own, row = NOLAY[n["a"]["type"]]; rows = [x for x in n["c"] if x["t"] == "row"]
        if row and rows and (not own or rng.random() < .7): n = rng.choice(rows); own = row
        if own and (n["t"] == "row" or own is not row):
            k = rng.choice(sorted(own)); n["a"][k] = rng.choice(own[k]); return True
        return False
    if w < .93:
        c = [n for n in nodes if n["t"] in ENUM and ENUM[n["t"]][0] in n["a"]]
        if c:
            n = rng.choice(c); n["a"][ENUM[n["t"]][0]] = rng.choice(ENUM[n["t"]][1]); return True
        return False
    if w < .97:
        for n in t["c"]:
            if n["t"] == "materials" and n["c"]: n["c"].append(json.loads(json.dumps(rng.choice(n["c"])))); return True
        return False
    n = pick(); n["c"].insert(rng.randint(0, len(n["c"])), N("unheardof", {"a": "b"}, []))
    return False

class P07(XMLCheck):
    prop = "P07"; trace = "XmlFileTrace"
    seq = 0
    def tok(self, c):
        o = c["op"]
        if o == "file": return [o, c["f"], c["x"]]
        if o == "rmfile": return [o, c["f"]]
        if o == "open": return [o, c["m"], c["f"]]
        if o == "parse": return [o, c["m"]]
        if o == "handler": return [o, c["n"], c["k"]]
        if o == "handled": return [o, c["n"]]
        return tok(c)
    def post(self, evs):
        return [{k: v for k, v in e.items() if k != "x"} if e["op"] == "file" else e for e in evs]
    def file(self, rng, f, t, k="xml", mayA=False):
        return {"op": "file", "f": f, "k": k, "v": t, "w": words(t), "mayA": mayA, "x": document(rng, t, k)}
    def spec_reader(self, rng, n):
        hs, st = behaviours("XmlReaderMC", "XmlReaderMC.cfg"); self.mc_stats(st); rng.shuffle(hs)
        out = []
        for h in hs[:n]:
            self.seq += 1; own = "Own%d" % self.seq; g = []
            for c in h:
                c = json.loads(json.dumps(c))
                if c["op"] == "handler":
                    if c["n"] == "Own": c["n"] = own
                if c["op"] == "file":
                    for d in walk(c["v"]):
                        if d["a"] == []: d["a"] = {}
                        if d["a"] and d["a"].get("geartype") == "Own": d["a"]["geartype"] = own
                    k = c["k"] if c["k"] == "xml" else rng.choice(["cut", "empty", "mismatch", "twice"])
                    c = self.file(rng, c["f"], c["v"], k)
                g.append(c)
            for m in sorted({c["m"] for c in g if c["op"] == "open"}):
                g.append({"op": "parse", "m": m})
            g.append({"op": "handled", "n": own})
            out.append(g)
        self.from_spec += len(out)
        return out
    def histories(self, rng, deep):
        out = self.spec_reader(rng, 6000 if deep else 700)
        for _ in range(12000 if deep else 2000):
            x = rng.random(); slots = [rng.choice(SLOTS)] if x < .5 else [rng.choice(["TPC", "TPC", "SiPlanes"])] if x < .65 else None
            t, parts, names, mats = tree(rng, slots)
            h = []
            ss = list(parts) or ["VXD"]
            if "TPC" in parts:    # what the pad planes look like when built directly
                h += [{"op": "new", "m": 50}, put(50, "TPC", parts["TPC"]), {"op": "obs", "m": 50, "s": "TPC"}]
            good = json.loads(json.dumps(t)); mayA = False
            seeit = look(1, ss if len(ss) > 1 or rng.random() < .7 else SLOTS, names, mats)
            kind = "xml"
            for _ in range(rng.choice([0, 1, 1, 1, 2])): mayA = mutate(rng, t) or mayA
            if rng.random() < .06: kind = rng.choice(["cut", "empty", "mismatch", "twice"]); t = json.loads(json.dumps(good))
            if rng.random() < .1 and len(good["c"]) and t == good:      # two detectors for one slot: the later one counts
                for n in t["c"]:
                    if n["t"] == "detectors" and parts:
                        s = rng.choice(sorted(parts)); p2 = xpart(rng, s)
                        if p2["k"] != "Cal" or p2["t"] == parts[s]["t"]: n["c"].append(det_node(rng, s, p2, name=rng.choice(NAMES_OF[s])))
            if rng.random() < .95: h.append(self.file(rng, 1, t, kind, mayA))
            own = None
            if rng.random() < .15:
                self.seq += 1; own = "Own%d" % self.seq; k = str(rng.randint(1, 99))
                ty = rng.choice([own, "GearParameters", "FTDParameters", "CalorimeterParameters"])
                h.append({"op": "handler", "n": ty, "k": k})
            h += [{"op": "open", "m": 1, "f": 1}, {"op": "parse", "m": 1}]
            h2 = [{"op": "parse", "m": 1}] * rng.choice([1, 2])
            h += h2
            # the file is repaired (or replaced) and asked for again
            h += [self.file(rng, 1, good, "xml")]
            h += [{"op": "parse", "m": 1}] + seeit
            if rng.random() < .3:
                h += [{"op": "rmfile", "f": 1}, {"op": "parse", "m": 1}] + seeit
                h += [{"op": "open", "m": 2, "f": 1}, {"op": "parse", "m": 2}, {"op": "parse", "m": 2}]
            out.append(h)
        return out

# ---------------------------------------------------------------- P08
def clone(x): return json.loads(json.dumps(x))
def tidy(rng, t):
    """the domain of merging: parameter names unique per detector, nothing left to defaults that a merge would fill in"""
    for n in walk(t):
        if n["t"] in ("detector", "BField", "module"):
            seen = set(); c = []
            for x in n["c"]:
                if x["t"] == "parameter":
                    x["v"] = [w.replace("\xe9", "e").replace("\xfc", "u") for w in x["v"]]      # the two files are in one encoding
                    if x["a"]["name"] in seen or x["v"] == []: continue
                    seen.add(x["a"]["name"])
                if x["t"] == "vxdType": x["t"] = "type"
                c.append(x)
            n["c"] = c
    for n in walk(t):       # notes that nobody reads, perhaps empty
        if n["t"] in ("detector", "material", "layer", "parameter", "BField") and rng.random() < .1: n["a"]["note"] = rng.choice(["", "", "a note", "x"])
    # elements that say only in the other file what they leave out here
    t["may"] = False
    for n in walk(t):
        if n["t"] in ("layer", "modules", "row", "ladder", "sensitive", "material", "BField") and rng.random() < .06:
            for k in rng.sample(sorted(n["a"]), min(len(n["a"]), rng.choice([1, 1, 2]))):
                if k not in ("name", "type"):
                    del n["a"][k]
                    if n["t"] == "modules": t["may"] = True       # identifiers may coincide then
    t["t"] = "gear"
    return t
class P08(P07):
    prop = "P08"; trace = "MergeTrace"
    note = Check.note
    def tok(self, c):
        o = c["op"]
        if o == "newmerge": return [o, c["k"]]
        if o == "setfile": return [o, c["k"], c["w"], c["f"]]
        if o == "dominant": return [o, c["k"], c["w"]]
        if o == "merge": return [o, c["k"], c["f"]]
        return P07.tok(self, c)
    def file(self, rng, f, t, k="xml", mayA=False):
        c = P07.file(self, rng, f, t, k, mayA)
        if k == "empty": c["x"] = rng.choice(["", " \n"])
        return c
    def spec_merge(self, rng, n):
        hs, st = behaviours("MergeMC", "MergeMC.cfg"); self.mc_stats(st)
        hs = [h for h in hs if h[-1]["op"] == "merge"] ; rng.shuffle(hs)
        out = []
        for h in hs[:n]:
            g = [{"op": "newmerge", "k": 1}]; have = set()
            for c in h:
                c = json.loads(json.dumps(c))
                if c["op"] == "file":
                    for d in walk(c["v"]):
                        if d["a"] == []: d["a"] = {}
                    c = self.file(rng, c["f"], c["v"], c["k"] if c["k"] == "xml" else rng.choice(["cut", "empty", "mismatch", "twice"]))
                g.append(c)
            for f in (1, 2):
                g += [{"op": "open", "m": f, "f": f}, {"op": "parse", "m": f}]
                g += look(f, [], ["a", "b", "c"], ["m", "n"])
            out.append(g)
        self.from_spec += len(out)
        return out
    def histories(self, rng, deep):
        out = self.spec_merge(rng, 4000 if deep else 500)
        for _ in range(6000 if deep else 700):
            nm = {s: rng.choice(NAMES_OF[s]) for s in SLOTS}
            slots = rng.sample(SLOTS, rng.choice([1, 2, 4])); single = rng.random() < .5
            A = []; parts2 = []; may = False
            h = []
            nsec = rng.sample(D.NAMES, rng.choice([1, 2, 4])); nmat = rng.sample(D.NAMES, rng.choice([0, 1, 3]))
            like = None
            for f in (1, 2):
                mine = [s for s in slots if rng.random() < .75]
                if rng.random() < .3: mine += [s for s in rng.sample(SLOTS, 1) if s not in mine]
                dets = []
                for s in mine:
                    for _ in range(50):
                        p = xpart(rng, s)
                        if s != "TPC" or p["single"] == single: break
                    else: continue
                    if like and s in like and rng.random() < .5:     # same number of layers, so that the files fit
                        q = clone(like[s])
                        if p["k"] == q["k"] == "Cal" and p["t"] == q["t"]: p["layers"] = [l[:] for l in q["layers"]]; p["ext"] = q["ext"]
                    if p["k"] == "Cal" and rng.random() < .4:        # one group of layers
                        p["layers"] = [p["layers"][0][:4] + [AUTO]] * len(p["layers"]) if p["layers"] else []
                    dets.append(det_node(rng, s, p, name=nm[s])); parts2.append((s, p))
                like = {s: p for s, p in parts2}
                for n in nsec:
                    if rng.random() < .7: dets.append(N("detector", {"name": n, "geartype": "GearParameters"}, par_nodes(pars(rng, rng.choice([0, 1, 3, 6])))))
                rng.shuffle(dets)
                c = [N("detectors", {}, dets)]
                if rng.random() < .6: c.append(N("global", {"detectorName": rng.choice(D.NAMES)}))
                if rng.random() < .5: c.append(N("BField", {"type": "ConstantBField", "x": num(rng), "y": num(rng), "z": num(rng)}, par_nodes(pars(rng))))
                if rng.random() < .1: c.append(N("GDMLFile", {"name": "nosuch.gdml"}))
                if rng.random() < .6:
                    c.append(N("materials", {}, [N("material", dict(z(["A", "Z", "density", "radLength", "intLength"], [tok_of(rng, "double") for _ in range(5)]), name=n)) for n in nmat if rng.random() < .7]))
                rng.shuffle(c)
                t = tidy(rng, N("gear", {}, c)); may = t.pop("may") or may
                if rng.random() < .03: t["t"] = "other"
                if rng.random() < .03: t["c"] = [x for x in t["c"] if x["t"] != "detectors"]
                A.append(t)
            for s, p in parts2:
                if s == "TPC": h += [{"op": "new", "m": 50}, put(50, "TPC", p), {"op": "obs", "m": 50, "s": "TPC"}]
            kinds = ["xml" if rng.random() < .97 else rng.choice(["cut", "empty", "mismatch", "twice"]) for _ in A]
            h += [self.file(rng, 1, A[0], kinds[0], may), self.file(rng, 2, A[1], kinds[1], may), {"op": "newmerge", "k": 1}]
            h += [{"op": "setfile", "k": 1, "w": 1, "f": 1}, {"op": "setfile", "k": 1, "w": 2, "f": 2}]
            if rng.random() < .15: h.append(self.file(rng, rng.choice([1, 2]), A[rng.choice([0, 1])], "xml", may))   # changed after it was taken in
            sl = sorted({s for s, p in parts2}) or ["VXD"]
            for step in range(rng.choice([1, 1, 2, 3])):
                if rng.random() < .6: h.append({"op": "dominant", "k": 1, "w": rng.choice([1, 2, 1, 2, 3, 0])})
                o = rng.choice([3, 3, 3, 1, 2])
                h.append({"op": "merge", "k": 1, "f": o})
                if rng.random() < .25: h += [{"op": "setfile", "k": 1, "w": rng.choice([1, 2]), "f": rng.choice([1, 2, 3])}]
                for f in ({o, 1, 2} if rng.random() < .4 else {o}):
                    h += [{"op": "open", "m": f, "f": f}, {"op": "parse", "m": f}, {"op": "parse", "m": f}]
                    h += look(f, sl, nsec, nmat)
            out.append(h)
        return out
