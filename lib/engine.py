"""Common flow of one check: model-check the specification, generate histories, run them on the real code,
validate every observed event with TLC, report."""
import random, hashlib
from vlib import *

class Check:
    prop = None; driver = None; trace = None; level = "model_checking"
    assumptions = []
    note = 'Bounded exhaustive model check of the TLA+ specification; a seeded sample of the behaviours TLC enumerates from it (one per transition of the bounded state graph; a larger sample in the thorough tier) and seeded random histories are run on the real code, and TLC decides for every recorded event whether the specification allows the observed result.'
    drivers = ()
    scales = ()   # sizes of a unit of length in the real code (powers of two); the specification is the same for all
    def scalable(self, h): return True
    def drivers_used(self): return self.drivers or (self.driver,)
    def __init__(self):
        self.states = 0; self.transitions = 0; self.from_spec = 0; self.notes = {}
        self.samples = []
    def mc_stats(self, st):
        self.states += st["distinct"]; self.transitions += st["generated"]
    def tok(self, c):
        raise NotImplementedError
    def parts(self, rng, deep):
        """[(driver, trace module, histories, env)]"""
        return [(self.driver, self.trace, self.histories(rng, deep), None)]
    def post(self, evs):
        """hook: adapt recorded events (pure data shuffling, no judgement)"""
        return evs

    def processes(self, hists): return max(1, min(NPROC - 1, sum(map(len, hists)) // 4000 + 1, len(hists)))
    def execute(self, drv, hists, n=None):
        exe = build_driver(drv)
        n = n or self.processes(hists)
        groups = [hists[i::n] for i in range(n)]
        def one(g):
            d = scratch()
            return run_driver(exe, g, self.tok, cwd=d) if g else []
        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(one, groups))
        out = [None] * len(hists)
        for i in range(n):
            for k, h in enumerate(res[i]):
                out[i + k * n] = h
        return [self.post(h) for h in out]

    def run(self, tier, seed, dev=False):
        t0 = time.time()
        deep = tier == "thorough"
        rng = random.Random("%s-%s" % (self.prop, seed))
        build_lib()
        viol = []; tot = {"trace_states": 0, "events": 0}; nh = 0; ops = {}; rejects = 0; npert = 0
        distinct = set()
        scale = float(os.environ.get("VERIF_DEV_SCALE", "1")) if dev else 1   # development: a sample only
        for drv, tr, hists, env in self.parts(rng, deep):
            if self.scales:
                r = random.Random("%s-%s-scale" % (self.prop, seed))
                hists = [[dict(h[0], sc=r.choice(self.scales))] + h[1:] if r.random() < .35 and self.scalable(h) else h for h in hists]
            if scale < 1: hists = random.Random(1).sample(hists, max(1, int(len(hists) * scale)))
            evs = self.execute(drv, hists)
            nh += len(evs)
            for h in evs:
                for e in h:
                    k = e["op"] + ":" + e["r"]["x"]
                    ops[k] = ops.get(k, 0) + 1
            bad, st = validate(tr, evs, env=env)
            tot["trace_states"] += st["trace_states"]; tot["events"] += st["events"]
            for b in bad:
                viol.append((drv, tr, env, hists[b[0]], evs[b[0]], b[1], hists[b[0] % self.processes(hists):b[0]:self.processes(hists)]))
            if evs and len(self.samples) < 3:
                h = evs[rng.randrange(len(evs))]
                self.samples.append({"trace_spec": tr, "events": h[:12]})
            # binding self-test: corrupted observations must be rejected
            if not bad and scale == 1:
                r, n = self.corrupt(rng, tr, evs, env)
                rejects += r; npert += n
        known = [k for k in known_findings() if ("property=%s " % self.prop) in k]
        cov = {"states": self.states + tot["trace_states"], "transitions": self.transitions + tot["events"],
               "traces_validated_against_impl": nh, "samples": self.samples,
               "spec_model_states": self.states, "spec_model_transitions": self.transitions,
               "histories_generated_from_spec": self.from_spec, "events_validated": tot["events"],
               "events_by_operation_and_outcome": dict(sorted(ops.items())),
               "corrupted_traces_rejected": "%d of %d" % (rejects, npert)}
        cov.update(self.notes)
        out = None
        if viol:
            out = self.confirm(viol)
            if dev:
                seen = {}
                for drv, tr, env, hist, ev, k, before in viol:
                    key = ev[k]["op"] + ":" + ev[k]["r"]["x"]
                    seen.setdefault(key, []).append((hist, ev, k))
                for key, l in seen.items():
                    print("==", key, len(l))
                    l.sort(key=lambda t: t[2])
                    for hist, ev, k in l[:3]:
                        print("   ", json.dumps(ev[:k + 1][-2:])[-1000:])
        if npert and rejects == 0:
            raise CheckError("no corrupted trace was rejected: the trace specification binds nothing")
        for k in known:
            print("KNOWN-FINDING: " + k)
        e = {"property": self.prop, "tier": tier, "seed": seed, "level": self.level, "coverage": cov,
             "assumptions": self.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(e, f, indent=1)
        if out:
            print("VIOLATION property=%s replay=%s" % (self.prop, out))
            return 1
        print("%s: held on %d histories, %d events, %d spec states (%.1fs)" % (self.prop, nh, tot["events"], self.states, time.time() - t0))
        return 0

    def corrupt(self, rng, tr, evs, env, n=12):
        """change one observed result in each of n histories; count how many TLC rejects"""
        cand = []
        idx = list(range(len(evs))); rng.shuffle(idx)
        for i in idx:
            h = evs[i]
            ks = [k for k, e in enumerate(h) if e["r"]["x"] == "ok" and self.corruptible(e)]
            if not ks or len(h) > 3000:
                continue
            k = rng.choice(ks)
            e = json.loads(json.dumps(h[k]))
            e["r"]["v"] = self.mutate(rng, e["r"]["v"])
            cand.append(h[:k] + [e])
            if len(cand) >= n:
                break
        if not cand:
            return 0, 0
        bad, _ = validate(tr, cand, chunks=1, env=env)
        return len({b[0] for b in bad}), len(cand)
    def corruptible(self, e):
        v = e["r"].get("v")
        return (isinstance(v, (int, str, bool, list, dict))) and v != 0 and v != [] and v != {}
    def mutate(self, rng, v):
        if isinstance(v, bool): return not v
        if isinstance(v, int): return v + 1000 if abs(v) > 50 else v + 3
        if isinstance(v, str): return v + "x"
        if isinstance(v, list):
            v = list(v); ks = [k for k in range(len(v)) if v[k] not in ([], {}, None)]
            if not ks: return v
            k = rng.choice(ks); v[k] = self.mutate(rng, v[k]); return v
        if isinstance(v, dict):
            v = dict(v); ks = [k for k in sorted(v) if v[k] not in ([], {}, None)]
            if not ks: return v
            k = rng.choice(ks); v[k] = self.mutate(rng, v[k]); return v
        return v

    def confirm(self, viol):
        """run a rejected history again; if it is accepted alone, what ran before in the same process matters"""
        firsts = viol[:3]
        for drv, tr, env, hist, ev, k, before in firsts:
            ev2 = self.execute(drv, [hist])
            bad2, _ = validate(tr, ev2, chunks=1, env=env)
            if bad2: return self.report(drv, tr, env, hist, ev2[0], bad2[0][1], [])
        for drv, tr, env, hist, ev, k, before in firsts:
            m = 1
            while True:
                l = before[-m:] + [hist]
                ev2 = self.execute(drv, l, 1)
                bad2, _ = validate(tr, ev2, env=env)
                if bad2: i, j = min(bad2); return self.report(drv, tr, env, l[i], ev2[i], j, l[:i])
                if m >= len(before): break
                m *= 8
        # the code answered what it may not; it need not do so each time (a crash that does not repeat may be the sandbox's)
        for drv, tr, env, hist, ev, k, before in viol:
            if not ev[k]["r"]["x"].startswith("CRASH"): return self.report(drv, tr, env, hist, ev, k, before)
        drv, tr, env, hist, ev, k, before = viol[0]
        raise CheckError("rejection was not repeatable: %s" % json.dumps(ev[k])[:800])

    def report(self, drv, tr, env, hist, ev, k, before):
        d = os.path.join(BUILD, "replay"); os.makedirs(d, exist_ok=True)
        body = {"property": self.prop, "driver": drv, "trace_spec": tr, "env": env, "before": before, "commands": hist[:k + 1], "events": ev[:k + 1], "rejected_event": k}
        s = json.dumps(body, indent=1)
        p = os.path.join(d, "%s-%s.json" % (self.prop, hashlib.sha256(s.encode()).hexdigest()[:10]))
        with open(p, "w") as f:
            f.write(s)
        return p

    def replay(self, path):
        b = json.load(open(path))
        evs = self.execute(b["driver"], b.get("before", []) + [b["commands"]], 1)
        bad, _ = validate(b["trace_spec"], evs, chunks=1, env=b.get("env"))
        for h, k in bad:
            print("rejected event %d: %s" % (k, json.dumps(evs[h][k])))
        return 1 if bad else 0
