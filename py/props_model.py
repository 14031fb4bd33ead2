"""Properties of the data model under editing (spec/Edit.tla)."""
import json, os
import gen, vlib


def explore(c, **params):
    """All transitions of the bounded edit machine: list of scenarios [build pre, call]."""
    p = os.path.join(c.wd, "params.json")
    json.dump(params, open(p, "w"))
    rc, out = vlib.tlc("EditMC", {"PARAMS": p}, c.wd, heap="6g", workers="4")
    if rc != 0 or "No error has been found" not in out:
        raise vlib.CheckError("EditMC: " + "\n".join(x for x in out.splitlines() if not x.startswith('"TR'))[-2000:])
    seen, sc = set(), []
    for line in out.splitlines():
        if line.startswith('"TR') and line not in seen:
            seen.add(line)
            d = json.loads(json.loads(line)[2:])
            sc.append([{"op": "build", "exp": d["pre"]}, d["o"]])
    sc.sort(key=json.dumps)
    c.cov["model_transitions_%s" % params["mode"]] = len(sc)
    return sc


def edit_events(sc):
    def ev(i, x):
        out = []
        ops = sc[i]
        for o, r in zip(ops, x["out"]):
            if isinstance(r, dict) and "exc" in r:
                break
            if o["op"] == "build":
                out.append({"end": "ok", "o": {"k": "build"}, "h": r, "ret": True, "found": -2})
            else:
                oo = {k: v for k, v in o.items() if k != "op"}
                if "v" in r:
                    oo["v"] = r["v"]
                out.append({"end": "ok", "o": oo, "h": r["h"], "ret": r["ret"], "found": r["found"]})
        if x["end"] != "ok":
            out.append({"end": x["end"], "o": {"k": ops[min(len(out), len(ops) - 1)].get("k", "build")}})
        return out
    return ev


class Hist:
    """Random histories of calls on a small experience; indices include out-of-range ones."""

    def __init__(self, r, bt_choices=(0, 1, 2), nperc=1, nchan=1, nband=2):
        self.r = r
        self.d = gen.D(r, max_perc=2, max_chan=2, max_band=2, max_fx=2, max_kf=3, strings=["", "a", "bc"], max_blk=[16])
        self.bts = bt_choices

    def start(self, nperc, nchan, nband, nfx=0):
        r, d = self.r, self.d
        h = {"version": "2023", "profile": "Main", "level": 1, "date": "", "desc": "", "ts": [1000], "avatars": [], "syncs": [], "percs": []}
        for p in range(nperc):
            pc = d.perception(p, [], list(range(90, 80, -1)))
            pc["chans"] = []
            for k in range(nchan):
                ch = d.channel(10 * p + k, None, [], [])
                ch["bands"] = []
                for b in range(nband):
                    bt = r.choice(self.bts)
                    band = {"type": bt, "curve": [], "blk": [], "lo": b, "up": 1000, "prio": [], "fx": []}
                    for _ in range(nfx):
                        band["fx"].append(self.fx(bt))
                    ch["bands"].append(band)
                pc["chans"].append(ch)
            h["percs"].append(pc)
        return h

    def fx(self, bt=None, maxpos=12):
        r = self.r
        bt = r.choice(self.bts) if bt is None else bt
        e = {"id": r.randint(0, 999), "pos": r.choice([0, 0, r.randint(0, maxpos), r.randint(0, 200)]), "phase": [], "sem": [], "base": [], "type": 0,
             "kfs": [], "tl": [], "ws": [], "wb": []}
        if r.random() < .15:
            e["type"] = 1
        for _ in range(r.randint(0, 2)):
            e["kfs"].append(self.kf())
        e["kfs"].sort(key=lambda k: k["p"][0])
        return e

    def kf(self):
        r = self.r
        return {"p": [r.randint(0, 9)], "a": r.choice([[], [r.randint(-10000, 10000)]]), "f": r.choice([[], [r.randint(0, 500)]])}

    def idx(self, n):
        r = self.r
        return r.choice([-1, 0, n - 1, n, n + 1, r.randint(0, max(0, n))])


def timeline_history(r, n, focus=None):
    """Calls on the effects and keyframes of one channel with two bands; sizes are tracked loosely
    (an index past the end is a legal call)."""
    H = Hist(r)
    h = H.start(1, 1, 2, nfx=r.randint(0, 2))
    ops = [{"op": "build", "exp": h}]
    nfx = [len(b["fx"]) for b in h["percs"][0]["chans"][0]["bands"]]
    for _ in range(n):
        b = r.randint(0, 1)
        at = [0, 0, b]
        c = r.random()
        if nfx[b] == 0 or c < .35:
            ops.append({"op": "edit", "k": "addFx", "at": at, "v": H.fx()})
            nfx[b] += 1
        elif c < .42:
            i = H.idx(nfx[b])
            ops.append({"op": "edit", "k": "rmFx", "at": at, "i": i})
            if 0 <= i < nfx[b]:
                nfx[b] -= 1
        elif c < .47:
            ops.append({"op": "edit", "k": "getFx", "at": at, "i": H.idx(nfx[b])})
        else:
            ea = at + [r.randint(0, nfx[b] - 1)]
            p = r.choice([0, r.randint(0, 9), r.randint(0, 9), 60])
            k = r.choice(["addAmp", "addAmp", "addAmp2", "addFreq", "addFreq", "rmKf", "getKf", "addTl"])
            o = {"op": "edit", "k": k, "at": ea}
            if k in ("addAmp", "addAmp2"):
                o.update(a=r.choice([[], [r.randint(-10000, 10000)], [r.randint(-10000, 10000)]]), pos=p)
            if k == "addAmp2":
                o["over"] = r.randint(0, 1)
            if k == "addFreq":
                o.update(f=r.choice([[], [r.randint(0, 500)], [r.randint(0, 500)]]), pos=p)
            if k in ("rmKf", "getKf"):
                o["i"] = r.choice([-1, 0, 1, 2, 5, 0])
            if k == "addTl":
                o["v"] = H.fx()
            ops.append(o)
    return ops


def m01(c):
    r = c.rng
    big = c.thorough
    sc = explore(c, mode="fx", bt=0, positions=[0, 1, 40], maxTag=6 if big else 5)
    sc += explore(c, mode="kf", bt=2, positions=[0, 1, 2], maxTag=6 if big else 5)
    if not big:
        sc = r.sample(sc, min(len(sc), 9000))
    for _ in range(3000 if big else 300):
        sc.append(timeline_history(r, r.choice([5, 12, 40])))
    c.sample(sc[-1], 1)
    c.decide("TraceEdit", sc, edit_events(sc))


def m02(c):
    r = c.rng
    sc = []
    for bt in (0, 2):
        sc += [s for s in explore(c, mode="fx", bt=bt, positions=[0, 1, 22, 40], maxTag=4) if s[1]["k"] == "findBand"]
    for _ in range(5000 if c.thorough else 900):
        H = Hist(r, bt_choices=r.choice([(0, 1, 2), (2,), (0,), (0, 3)]))
        h = H.start(1, 1, r.randint(0, 4), nfx=r.randint(0, 3))
        bands = h["percs"][0]["chans"][0]["bands"]
        for b in bands:
            for e in b["fx"]:
                e["type"] = 0 if r.random() < .9 else e["type"]
                if r.random() < .15:
                    for k in e["kfs"]:
                        if r.random() < .4:
                            k["p"] = []
                for k in e["kfs"]:
                    if k["p"] and r.random() < .3:
                        k["p"] = [k["p"][0] + r.choice([10, 100])]
        ops = [{"op": "build", "exp": h}]
        edges = [0, 1, 5, 50, 200] + [e["pos"] for b in bands for e in b["fx"]] + \
                [e["pos"] + (e["kfs"][-1]["p"] or [0])[0] + t for b in bands for e in b["fx"] if e["kfs"] for t in (0, 22)]
        for _ in range(6):
            p = max(0, r.choice(edges) + r.choice([0, 0, 1, -1]))
            q = r.choice(edges) + r.choice([0, 1, -1])
            d = max(0, q - p) if r.random() < .7 else r.choice([0, 1, 20, 300])
            ops.append({"op": "edit", "k": "findBand", "at": [0, 0], "pos": p, "dur": d, "type": r.choice([0, 1, 2, 2, 3])})
            bi = [i for i, b in enumerate(bands) if b["fx"]]
            if bi:
                i = r.choice(bi)
                ops.append({"op": "edit", "k": "overlap", "at": [0, 0, i, r.randint(0, len(bands[i]["fx"]) - 1)], "pos": p, "dur": d})
        sc.append(ops)
    c.sample(sc[-1], 1)
    c.decide("TraceEdit", sc, edit_events(sc))


def lib_experience(r):
    d = gen.D(r, max_perc=2, max_chan=3, max_band=3, max_fx=4, max_kf=2, strings=["", "a"], max_blk=[16])
    h = d.experience()
    while not h["percs"]:
        h = d.experience()
    shapes = []
    for k in range(3):
        shapes.append({"phase": r.choice([[], [0], [5000]]), "base": r.choice([[], [0], [1]]), "sem": r.choice([[], [], ["Explosion"]]),
                       "kfs": d.keyframes(r.choice([0, 1, 2]), 20, n=r.randint(0, 2))})
    shapes.append(dict(shapes[0], phase=[100] if shapes[0]["phase"] != [100] else []))
    shapes.append(dict(shapes[0], sem=["Kick"] if shapes[0]["sem"] != ["Kick"] else []))
    if r.random() < .2:                      # no semantic, and a semantic without text
        shapes += [dict(shapes[0], sem=[]), dict(shapes[0], sem=[""])]
    if shapes[0]["kfs"]:
        k = dict(shapes[0]["kfs"][-1])
        k["p"] = [k["p"][0] + 1]
        shapes.append(dict(shapes[0], kfs=shapes[0]["kfs"][:-1] + [k]))
        shapes.append(dict(shapes[0], kfs=shapes[0]["kfs"][:-1]))
    for p in h["percs"]:
        ids = [e["id"] for e in p["lib"]]
        if r.random() < .3 and p["lib"]:     # a composite library entry, possibly referring to another entry
            e = d.effect(2, 0, 10, None, ids)
            e.update(id=61, type=2, kfs=[], tl=[d.effect(2, 3, 10, None, ids)], pos=0)
            p["lib"].append(e)
            ids.append(61)
        if r.random() < .3:                  # library entries that are composites of references, also of each other or of themselves
            known = r.sample(range(200, 220), r.randint(1, 3))
            for k in known:
                e = d.effect(2, 0, 10, None, [])
                e.update(id=k, type=2, kfs=[], pos=r.choice([0, r.randint(0, 99)]))
                e["tl"] = [dict(d.effect(2, r.randint(0, 50), 10, None, []), type=1, id=r.choice(known + ids + [78]), kfs=[], tl=[], phase=[], base=[], sem=[])
                           for _ in range(r.randint(1, 2))]
                p["lib"].append(e)
            ids += known
        for e in p["lib"]:
            if r.random() < .3:              # its own position is not that of the effects that refer to it
                e["pos"] = r.randint(1, 500)
        for ch in p["chans"]:
            for b in ch["bands"]:
                if b["type"] == 3:
                    continue
                for e in b["fx"]:
                    if e["type"] == 0 and r.random() < .7:
                        e.update(json.loads(json.dumps(r.choice(shapes))))
                    if ids and r.random() < .1:
                        e.update(type=1, id=r.choice(ids + [77]), kfs=[], tl=[], phase=[], base=[], sem=[])
    return h


def m03(c):
    r = c.rng
    sc = []
    for _ in range(6000 if c.thorough else 700):
        ops = [{"op": "build", "exp": lib_experience(r)}]
        for k in r.choice([["refactor"], ["linearize"], ["refactor", "linearize"], ["linearize", "refactor", "linearize"],
                           ["refactor", "refactor", "linearize", "linearize"]]):
            ops.append({"op": "edit", "k": k})
        sc.append(ops)
    c.sample(sc[-1], 1)
    c.decide("TraceEdit", sc, edit_events(sc))


def tree_history(r, n):
    H = Hist(r)
    d = H.d
    h = H.start(r.randint(0, 2), r.randint(1, 2), r.randint(0, 2), nfx=1)
    ops = [{"op": "build", "exp": h}]
    t = [[[len(b["fx"]) for b in ch["bands"]] for ch in p["chans"]] for p in h["percs"]]   # effects per band

    def lists(v, key):
        return [[len(b["fx"]) for b in ch["bands"]] for ch in v["chans"]] if key == "p" else [len(b["fx"]) for b in v["bands"]]
    for _ in range(n):
        lvl = r.choice("pppcccbbbeekklx")
        o = {"op": "edit", "at": []}
        p = r.randrange(len(t)) if t else None
        if lvl in "p" or p is None:
            k = r.choice(["addPerc", "replPerc", "metaPerc", "metaPerc", "rmPerc", "getPerc"]) if t else "addPerc"
            o["k"] = k
            if k in ("addPerc", "replPerc", "metaPerc"):
                o["v"] = d.perception(r.randint(0, 200), [1, 2], list(range(50, 40, -1)))
                if r.random() < .4:
                    o["v"]["prio"] = [r.choice([1, 128, 255, 256, r.randint(0, 10**6)])]
            if k != "addPerc":
                o["i"] = H.idx(len(t))
            ok = k != "addPerc" and 0 <= o["i"] < len(t)
            if k == "addPerc":
                t.append(lists(o["v"], "p"))
            elif k == "replPerc" and ok:
                t[o["i"]] = lists(o["v"], "p")
            elif k == "rmPerc" and ok:
                t.pop(o["i"])
        elif lvl == "x":
            k = r.choice(["addSync", "clearDev", "addLib", "clearLib", "getById", "addDevPerc", "addDevsPerc"])
            o.update(k=k, at=[p])
            if k == "addSync":
                o.update(i=r.randint(0, 999), ts=r.choice([[], [1000], [5]]))
            if k.startswith("addDev"):
                o["v"] = dict(d.perception(0, [1], list(range(50, 40, -1))), chans=[], lib=[], dev=[d.device(i) for i in range(r.randint(0, 3))])
            if k == "addLib":
                o["v"] = d.libeffect(r.randint(0, 9))
            if k == "getById":
                o["i"] = r.randint(0, 12)
        elif lvl == "c" or not t[p]:
            k = r.choice(["addChan", "replChan", "metaChan", "metaChan", "rmChan", "getChan", "clearChan"])
            o.update(k=k, at=[p])
            if k in ("addChan", "replChan", "metaChan"):
                o["v"] = d.channel(r.randint(0, 200), None, [], [3, 4])
                if r.random() < .4:
                    o["v"]["prio"] = [r.choice([1, 128, 255, 256, r.randint(0, 10**6)])]
            if k != "addChan":
                o["i"] = H.idx(len(t[p]))
            ok = k != "addChan" and 0 <= o["i"] < len(t[p])
            if k == "addChan":
                t[p].append(lists(o["v"], "c"))
            elif k == "replChan" and ok:
                t[p][o["i"]] = lists(o["v"], "c")
            elif k == "rmChan" and ok:
                t[p].pop(o["i"])
            elif k == "clearChan":
                t[p] = []
        else:
            ci = r.randrange(len(t[p]))
            bs = t[p][ci]
            if lvl == "b" or not bs:
                k = r.choice(["addBand", "genBand", "replBand", "metaBand", "metaBand", "rmBand", "getBand", "clearBand", "addVert", "clearVert"])
                o.update(k=k, at=[p, ci])
                if k in ("addBand", "replBand", "metaBand"):
                    o["v"] = d.band(r.choice([0, 1, 2, 3]), None, [])
                    if r.random() < .5:
                        o["v"]["prio"] = [r.choice([1, 9, 127, 128, 255, 256, 70000, r.randint(0, 10**6)])]
                if k == "genBand":
                    o.update(i=r.randint(0, 3), type=r.randint(0, 3), lo=r.randint(0, 50), up=r.randint(51, 99), x=r.randint(0, 5))
                elif k == "addVert":
                    o["i"] = r.randint(0, 99)
                elif k != "addBand":
                    o["i"] = H.idx(len(bs))
                ok = k not in ("addBand", "genBand") and 0 <= o["i"] < len(bs)
                if k == "addBand":
                    bs.append(len(o["v"]["fx"]))
                elif k == "genBand":
                    bs.append(0)
                elif k == "replBand" and ok:
                    bs[o["i"]] = len(o["v"]["fx"])
                elif k == "rmBand" and ok:
                    bs.pop(o["i"])
                elif k == "clearBand":
                    t[p][ci] = []
            else:
                bi = r.randrange(len(bs))
                if lvl == "e" or bs[bi] == 0:
                    k = r.choice(["addFx", "replFx", "rmFx", "getFx"])
                    o.update(k=k, at=[p, ci, bi])
                    if k in ("addFx", "replFx"):
                        o["v"] = H.fx()
                    if k != "addFx":
                        o["i"] = H.idx(bs[bi])
                    if k == "addFx":
                        bs[bi] += 1
                    elif k == "rmFx" and 0 <= o["i"] < bs[bi]:
                        bs[bi] -= 1
                else:
                    k = r.choice(["addKf", "addKf3", "replKf", "rmKf", "getKf"])
                    o.update(k=k, at=[p, ci, bi, r.randrange(bs[bi])])
                    if k in ("addKf", "addKf3", "replKf"):
                        o["v"] = H.kf()
                    if k not in ("addKf", "addKf3"):
                        o["i"] = r.choice([-1, 0, 0, 1, 2, 6])
        ops.append(o)
    return ops


def m04(c):
    r = c.rng
    sc = explore(c, mode="tree", bt=0, positions=[], maxTag=4)
    if not c.thorough:
        sc = r.sample(sc, min(len(sc), 6000))
    for _ in range(2000 if c.thorough else 250):
        sc.append(tree_history(r, r.choice([5, 15, 30])))
    c.sample(sc[-1], 1)
    c.decide("TraceEdit", sc, edit_events(sc))


CHECKS = {"M01": m01, "M02": m02, "M03": m03, "M04": m04}
