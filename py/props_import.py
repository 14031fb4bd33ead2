"""Import of AHAP patterns (A01) and of IVS files (I01)."""
import json
import os
import vlib
CHECKS = {}


def explore(c, module, consts=None):
    cfg = None
    if consts:
        cfg = os.path.join(c.wd, module + "_big.cfg")
        t = open(os.path.join(vlib.SPEC, module + ".cfg")).read()
        for k, v in consts.items():
            import re
            t = re.sub(r"\b%s = \d+" % k, "%s = %d" % (k, v), t)
        open(cfg, "w").write(t)
    rc, out = vlib.tlc(module, {}, c.wd, cfg=cfg, heap="6g", workers="8")
    if rc != 0 or "No error has been found" not in out:
        raise vlib.CheckError(module + ": " + out[-3000:])
    # printed as "TR{\"pts\":...}": the text of a TLA+ string
    return [json.loads(json.loads(x)[2:]) for x in sorted({l for l in out.splitlines() if l.startswith('"TR')})]


I, S = "HapticIntensityControl", "HapticSharpnessControl"


def num(r, v):
    """A scaled value as a JSON number."""
    return v // 10000 if v % 10000 == 0 and r.random() < .5 else v / 10000


def doc(r, items, ts):
    """The JSON of the pattern items (times are in ticks)."""
    out = []
    # (a time between two ticks counts for the nearer one)
    frac = r.random() < .4
    part = lambda t: r.choice([-.3, .3, .2, -.45, .45, 0]) if frac and t > 0 else 0
    sec = lambda t: (t // ts if t % ts == 0 and r.random() < .3 else (t + part(t)) / ts)
    for it in items:
        if it["k"] == "raw":
            out.append(it["x"])
            continue
        miss = it.get("miss")
        if it["k"] == "curve":
            off = it.get("off", 0)
            o_ = off + (r.choice([0, .25, .4, .5, .75]) if frac else 0)
            o = {"ParameterID": it["id"], "Time": off // ts if o_ == off and off % ts == 0 and r.random() < .3 else o_ / ts,
                 "ParameterCurveControlPoints": [{"Time": (p["t"] + part(p["t"]) - o_) / ts, "ParameterValue": num(r, p["v"])} for p in it["pts"]] + it.get("skip", [])}
            o = dict(r.sample(sorted(o.items()), len(o)))
            out.append({"ParameterCurve": o})
        else:
            o = {"EventType": it["id"], "Time": sec(it["t"]), "EventParameters":
                 [{"ParameterID": p["id"], "ParameterValue": num(r, p["v"])} for p in it["params"]]}
            if it["d"]:
                o["EventDuration"] = sec(it["d"])
            out.append({"Event": o})
        if miss:
            k, how = miss
            o[k] = how
            if how is None:
                del o[k]
    return out


def item(k, id, **kw):
    d = {"k": k, "id": id, "t": 0, "d": 0, "params": [], "pts": [], "whole": True}
    d.update(kw)
    return d


def params(r, sharp):
    val = lambda: r.choice([0, 10000, 5000, r.randint(0, 10000), r.randint(0, 100) * 100])
    p = []
    if r.random() < .8:
        p.append({"id": "HapticIntensity", "v": val()})
    if sharp or r.random() < .6:
        p.append({"id": "HapticSharpness", "v": val()})
    if r.random() < .15:
        p.append({"id": r.choice(["AttackTime", "HapticIntensity", "DecayTime"]), "v": val()})
    r.shuffle(p)
    return p


def pattern(r, ts):
    tick = lambda s: int(s * ts)
    span = r.choice([.02, .2, 2, 5])
    at = lambda: r.randint(0, max(1, tick(span)))
    items = []
    used = {I: set(), S: set()}
    sharp = False
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        id = r.choice([I, S])
        sharp |= id == S
        off = r.choice([0, 0, at()])
        ts_ = sorted({off + r.choice([at(), r.randint(0, 8)]) for _ in range(r.choice([0, 1, 2, 3, 6]))} - used[id])
        used[id] |= set(ts_)
        lo = 0 if id == I else -10000
        pts = [{"t": t, "v": r.choice([0, 10000, 5000, r.randint(lo, 10000)])} for t in ts_]
        if pts and r.random() < .25:          # a jump: points at the same time
            for _ in range(r.choice([1, 1, 2, 20])):
                k = r.randrange(len(pts))
                pts.insert(k, dict(pts[k], v=r.choice([0, 10000, r.randint(lo, 10000)])))
        if r.random() < .2:
            r.shuffle(pts)
        items.append(item("curve", id, pts=pts, off=off, skip=[] if r.random() < .8 else [{"Time": 1}, {"ParameterValue": 1}][:r.randint(1, 2)]))
    marks = sorted(used[I] | used[S])
    for _ in range(r.choice([0, 1, 2, 3, 5, 9])):
        t = r.choice(marks) if marks and r.random() < .4 else at()
        ev = item("event", r.choice(["HapticTransient", "HapticContinuous", "HapticContinuous"]), t=t, params=params(r, sharp))
        if ev["id"] == "HapticContinuous":
            later = [m - t for m in marks if m > t]
            ev["d"] = r.choice(later) if later and r.random() < .3 else max(1, r.choice([1, 2, at(), at()]))
        items.append(ev)
    if r.random() < .2:
        items.append(item("event", r.choice(["AudioContinuous", "AudioCustom", ""]), t=at()))
    if r.random() < .1:
        items.append(item("raw", "", x=r.choice([{"Parameter": {"ParameterID": "HapticIntensityControl", "ParameterValue": 0.5, "Time": 0}}, {}])))
    if r.random() < .5:
        r.shuffle(items)
    return items



def a01(c):
    r = c.rng
    sc, evs = [], []

    def put(items, ts, chans=0, kind="ok", text=None, path="file", odd=False):
        d = {"Version": 1.0, "Metadata": {"Project": "x"}, "Pattern": doc(r, items, ts)}
        text = json.dumps(d) if text is None else text
        sc.append([{"op": "ahap", "doc": text, "ts": ts, "chans": chans, "path": path}])
        keep = ("k", "id", "t", "d", "params", "pts", "whole")
        evs.append({"kind": kind, "chans": chans, "odd": odd, "items": [{k: it[k] for k in keep} for it in items if it["k"] != "raw"]})
    # every pattern of the model, the intensity and the sharpness modulated alike
    models = explore(c, "AhapMC", {"MaxPts": 3, "MaxT": 5 if c.thorough else 3})
    c.cov["patterns of the model replayed"] = len(models)
    for m in models:
        u = r.choice([1, 10, 111])
        pts = [{"t": p["t"] * u, "v": p["v"]} for p in m["pts"]]
        ev = dict(t=m["t"] * u, params=[{"id": "HapticIntensity", "v": 8000}, {"id": "HapticSharpness", "v": 3000}])
        put([item("curve", I, pts=pts), item("curve", S, pts=[dict(p, v=p["v"] - 5000) for p in pts]),
             item("event", "HapticContinuous", d=m["d"] * u, **ev), item("event", "HapticTransient", **ev)], 1000)
    for _ in range(6000 if c.thorough else 800):
        ts = r.choice([1000, 1000, 8000, 44100, 500, 1])
        put(pattern(r, ts), ts, chans=r.choice([0, 0, 0, 0, 1, 1, 2]))
    # what is no pattern
    for text, kind in [("", "not"), ("{", "not"), ("[]", "not"), ("3", "not"), ("null", "not"), ("{}", "not"), ('{"Pattern": 3}', "not"),
                       ('{"Pattern": {}}', "not"), ('{"pattern": []}', "not"), ('{"Pattern": []}', "ok"), ('{"Pattern": [],}', "ok"), ('"Pattern"', "not")]:
        for ch in (0, 1, 2):
            put([], 1000, kind=kind, text=text, chans=ch)
    for path in ("missing", "dir"):
        put([], 1000, kind="not", path=path)
    # members that are missing or of another type
    for _ in range(1500 if c.thorough else 250):
        its = pattern(r, 1000)
        k = [x for x in its if x["k"] != "raw" and x["id"] not in ("AudioContinuous", "AudioCustom", "")]
        if not k:
            continue
        it = r.choice(k)
        names = ["Time", "ParameterCurveControlPoints"] if it["k"] == "curve" else ["Time", "EventParameters"] + (["EventDuration"] if it["d"] else [])
        it["miss"] = [r.choice(names), r.choice([None, "1", {}, None, True])]
        it["whole"] = False
        put(its, 1000, chans=r.choice([0, 1]))
    # anything else: only that it ends
    junk = lambda: r.choice([None, 1, "x", [], {}, [[]], [1], [{}], True, -1.5])
    for _ in range(4000 if c.thorough else 600):
        its = pattern(r, 1000)
        d = {"Pattern": doc(r, its, 1000)}
        spots = []

        def walk(x):
            if isinstance(x, dict):
                for k in x:
                    spots.append((x, k))
                    walk(x[k])
            elif isinstance(x, list):
                for k in range(len(x)):
                    spots.append((x, k))
                    walk(x[k])
        walk(d["Pattern"])
        for _ in range(r.randint(1, 2)):
            if spots:
                x, k = r.choice(spots)
                if isinstance(x, dict) and r.random() < .4:
                    x.pop(k, None)
                else:
                    x[k] = junk()
        d["Pattern"] += [junk() for _ in range(r.choice([0, 0, 1]))]
        text = json.dumps(d)
        if r.random() < .2:
            n = r.randint(0, len(text))
            text = text[:n]
        put([], 1000, text=text, odd=True)
    c.sample(sc[len(models)], 1)

    def ev(i, x):
        if x["end"] != "ok":
            return [{"end": x["end"]}]
        return [dict(evs[i], end="ok", o=x["out"][0])]
    c.decide("TraceAhap", sc, ev)


CHECKS["A01"] = a01


ATTR = {"period": "period", "duration": "duration", "magnitude": "magnitude", "attack": "attack-time", "alevel": "attack-level", "fade": "fade-time",
        "flevel": "fade-level"}


def xml(r, basis, timelines, mod):
    def el(name, attrs, inner=""):
        a = [(k, str(v)) for k, v in attrs if v is not None]
        r.shuffle(a)
        esc = lambda s: s.replace("&", "&amp;").replace('"', "&quot;").replace("<", "&lt;")
        return "<%s%s>%s</%s>" % (name, "".join(' %s="%s"' % (k, esc(v)) for k, v in a), inner, name)
    one = lambda x: x[0] if x else None
    parts = []
    for b in basis:
        parts.append(el("basis-effect", [("name", b["name"]), ("type", b["type"]), ("waveform", b["waveform"])] + [(ATTR[k], one(b[k])) for k in ATTR]))
    seq = []
    for t in timelines:
        inner = [el("launch-event", [("time", x["time"]), ("effect", x["effect"]), ("duration-override", one(x["duration"])),
                                     ("magnitude-override", one(x["magnitude"])), ("period-override", one(x["period"]))]) for x in t["launch"]]
        reps = [el("repeat-event", [("time", x["t"]), ("duration", x["d"]), ("count", x["n"])]) for x in t["repeats"]]
        k = r.randint(0, len(inner))
        parts_ = inner[:k] + reps + inner[k:] if r.random() < .5 else inner + reps
        seq.append(el("timeline-effect", [("name", t["name"])], "".join(parts_)))
    k = r.randint(0, len(parts))
    return '<?xml version="1.0"?>' + el("ivs-file", [("last-modified", mod)], el("effects", [], "".join(parts[:k] + seq + parts[k:])))


def basis_effect(r, name, u=1):
    lv = lambda: r.choice([0, 10000, 5000, r.randint(0, 10000)])
    d = r.choice([1, 10, 50, 200, 5000]) * u
    b = {"name": name, "type": r.choice(["periodic"] * 5 + ["magsweep"] * 2 + ["texture"]),
         "waveform": r.choice(["sine", "square", "triangle", "sawtooth-up", "sawtooth-down"]), "period": [r.choice([1, 2, 3, 5, 7, 10, 30, 125, 1000, 1500])],
         "duration": [d], "magnitude": [lv()], "attack": [], "alevel": [], "fade": [], "flevel": []}
    part = lambda: r.choice([0, d // 4, d // 2, d * 3 // 4, d, d + 10 * u, 2 * d]) // u * u
    if r.random() < .5:
        b["attack"] = [part()]
    if r.random() < .8:
        b["alevel"] = [lv()]
    if r.random() < .5:
        b["fade"] = [part()]
    if r.random() < .8:
        b["flevel"] = [lv()]
    return b


def repeats(r, u):
    """Disjoint or nested repeat events (at most 24 plays of anything)."""
    out = []

    def fill(a, b, room):
        x = a
        while x < b and len(out) < 5 and r.random() < .7:
            t = r.randint(x, b - 1) if r.random() < .6 else x
            d = r.randint(1, b - t) if r.random() < .7 else b - t
            n = r.choice([0, 1, 1, 2, 3])
            if (n + 1) > room:
                n = 0
            out.append({"t": t * u, "d": d * u, "n": n})
            if r.random() < .6:
                fill(t, t + d, room // (n + 1))
            x = t + d
    fill(0, 60, 24)
    seen, res = set(), []
    for e in out:
        if (e["t"], e["d"]) not in seen:
            seen.add((e["t"], e["d"]))
            res.append(e)
    r.shuffle(res)
    return res


def ivs_text(r):
    """A small IVS file."""
    bs = [basis_effect(r, n) for n in "ab"]
    la = [{"time": r.randint(0, 300), "effect": r.choice("ab"), "duration": [], "magnitude": [], "period": []} for _ in range(r.choice([0, 1, 3]))]
    return xml(r, bs, [{"name": "t", "launch": la, "repeats": repeats(r, 3)[:2]}], "m")


def i01(c):
    r = c.rng
    sc, evs = [], []

    def put(basis, timelines, ts, chans=0, kind="ok", text=None, path="file", odd=False, mod="Sunday, April 11, 2021"):
        text = xml(r, basis, timelines, mod) if text is None else text
        sc.append([{"op": "ivs", "doc": text, "ts": ts, "chans": chans, "path": path}])
        evs.append({"kind": kind, "chans": chans, "odd": odd, "ts": ts, "basis": basis, "timelines": timelines, "mod": mod})

    def launch(t, effect, **kw):
        return dict({"time": t, "effect": effect, "duration": [], "magnitude": [], "period": []}, **kw)
    big = {"MaxT": 4, "MaxR": 3, "MaxN": 2} if c.thorough else {"MaxT": 3, "MaxR": 3, "MaxN": 2}
    lines = [m["r"] for m in explore(c, "IvsMC", big)]
    c.cov["timelines of the model replayed"] = len(lines)
    r.shuffle(lines)
    for k in range(0, len(lines), 6):
        u = r.choice([1, 10, 250])
        b = dict(basis_effect(r, "b"), type="periodic", duration=[r.choice([1, 2, u])], attack=[], fade=[])
        tl = []
        for n, R in enumerate(lines[k:k + 6]):
            R = [{"t": x["t"] * u, "d": x["d"] * u, "n": x["n"]} for x in R]
            r.shuffle(R)
            la = [launch(t * u, "b") for t in range(big["MaxT"] + 1)]
            r.shuffle(la)
            tl.append({"name": "t%d" % n, "launch": la, "repeats": R})
        put([b], tl, r.choice([1000, 8000]))
    for _ in range(5000 if c.thorough else 700):
        ts = r.choice([1000, 1000, 1000, 8000, 48000, 44100])
        u = 10 if ts == 44100 else 1
        names = ["a", "b", "ab", "Bump & \"x\"", r.choice(["\u00e9", "", "A", "abc", "a "])]
        bs = [basis_effect(r, r.choice(names), u) for _ in range(r.choice([0, 1, 2, 3, 4]))]
        tls = []
        for n in range(r.choice([0, 1, 1, 1, 2, 3])):
            s = u * r.choice([1, 1, 10, 77])
            la = []
            for _ in range(r.choice([0, 1, 2, 3, 6])):
                l = launch(r.choice([0, r.randint(0, 80) * s, r.randint(0, 60) * s, r.randint(0, 600) * s]), r.choice(names[:4]))
                if r.random() < .3:
                    l["duration"] = [r.choice([1, 30, 100]) * u]
                if r.random() < .3:
                    l["magnitude"] = [r.choice([0, 10000, r.randint(0, 10000)])]
                if r.random() < .3:
                    l["period"] = [r.choice([1, 4, 9, 100])]
                la.append(l)
            tls.append({"name": r.choice(["", "Timeline %d" % n, "x - y"]), "launch": la, "repeats": repeats(r, s) if r.random() < .7 else []})
        put(bs, tls, ts, chans=r.choice([0, 0, 0, 1, 2]), mod=r.choice(["", "2021", "Sunday, April 11, 2021  10:39:06PM"]))
    for n in ([127, 128, 255, 256, 257, 300] if c.thorough else [128, 257]):   # many repeats, of which most play nothing
        d = r.choice([3, 10])
        put([dict(basis_effect(r, "b"), type="periodic", duration=[2], attack=[], fade=[])],
            [{"name": "t", "launch": [launch(r.choice([0, 1]), "b"), launch(r.choice([d, 50]), "b")], "repeats": [{"t": 0, "d": d, "n": n}]}], 1000)
        put([dict(basis_effect(r, "b"), type="periodic", duration=[2], attack=[], fade=[])],
            [{"name": "t", "launch": [launch(60, "b")], "repeats": [{"t": 1, "d": d, "n": n * 100}]}], 1000)
    for text in ("", "x", "<ivs-file>", "<a><b></a>", "<", "{}"):
        put([], [], 1000, kind="not", text=text)
    for path in ("missing", "dir"):
        put([], [], 1000, kind="not", path=path)
    for text in ("<a/>", "<ivs-file/>", "<ivs-file><effects/></ivs-file>", "<effects><timeline-effect/></effects>"):
        put([], [], 1000, text=text)
    # anything else: only that it ends
    for _ in range(3000 if c.thorough else 500):
        bs = [basis_effect(r, n) for n in "ab"]
        tl = [{"name": "t", "launch": [launch(r.randint(0, 50), r.choice("ab")) for _ in range(3)], "repeats": repeats(r, 1)[:2]}]
        t = xml(r, bs, tl, "m")
        for _ in range(r.randint(1, 2)):
            at = [i for i, ch in enumerate(t) if ch == "="]
            i = r.choice(at)
            c_ = r.random()
            if c_ < .4:                       # an attribute is missing
                j = t.rfind(" ", 0, i)
                t = t[:j] + " x" + t[j + 1:]
            elif c_ < .7 and t[i - 5:i] != "count":
                j = t.index('"', i + 2)
                t = t[:i + 2] + r.choice(["", "x", "0", "-1", "1.5", "-7", "100000"]) + t[j:]
            else:
                t = t[:i] + r.choice(["", "<", ">", " "]) + t[i + 1:]
        put([], [], 1000, text=t, odd=True)
    c.sample(sc[-1], 1)

    def ev(i, x):
        if x["end"] != "ok":
            return [{"end": x["end"]}]
        return [dict(evs[i], end="ok", o=x["out"][0])]
    c.decide("TraceIvs", sc, ev)


CHECKS["I01"] = i01


def recording(r, n, top):
    x, v, d = [], 0, 0
    kind = r.choice(["walk", "steps", "noise", "flat", "sine", "few"])
    import math
    f, a = r.uniform(.001, .4), r.randint(1, top)
    for i in range(n):
        if kind == "walk":
            d = max(-top // 8, min(top // 8, d + r.randint(-top // 40, top // 40)))
            v += d
        elif kind == "steps":
            v = v if r.random() < .8 else r.randint(-top, top)
        elif kind == "noise":
            v = r.randint(-top, top)
        elif kind == "sine":
            v = round(a * math.sin(2 * math.pi * f * i))
        elif kind == "few":
            v = r.choice([-1, 0, 1, 1]) * (top // 2)
        v = max(-top, min(top, v))
        x.append(v)
    return x


def p01(c):
    r = c.rng
    sc, evs = [], []

    def put(**o):
        sc.append([dict(o, op="pcm")])
        evs.append(o)
    for _ in range(3000 if c.thorough else 420):
        rate, ts = r.choice([(1000, 1000), (1000, 1000), (8000, 1000), (8000, 8000), (2000, 1000), (500, 1000), (1000, 48000)])
        bl = r.choice([b for b in (16, 32, 64) if b * ts % rate == 0])
        w, v, cf = r.choice([(0, 1, 0), (0, 1, 0), (0, 1, 7250), (1, 1, 7250), (1, 1, 7250), (1, 1, 0), (1, 0, 0), (1, 0, 10000), (0, 0, 7250)])
        if cf * 2 >= rate * 100:
            cf = 5000
        nc = r.choice([1, 1, 2, 3, r.choice([4, 5, 9])])
        n = r.choice([0, 1, 2, 3, bl - 1, bl, bl + 1, 2 * bl + bl // 3, 100])
        d = [recording(r, n, 12000 if w else 32767) for _ in range(nc)]
        put(data=d, rate=rate, ts=ts, bl=bl, bu=r.choice([1, 10, 15 * 20, 15 * 20, 15 * 20]), cf=cf, w=w, v=v, mod=r.choice([0, 6, 9, 9, 10, 11, 3]),
            chans=r.choice([0, 0, 0, nc, nc - 1, nc + 1]), path="file" if r.random() < .96 else r.choice(["junk", "missing", "dir"]))
    for a in range(3):                     # every short recording of few values
        for b in range(3):
            for x in range(3):
                for y in range(3):
                    s = [12000 * (k - 1) for k in (a, b, x, y)]
                    put(data=[s, s[:1] * 4], rate=1000, ts=r.choice([1000, 500]), bl=16, bu=300, cf=0, w=0, v=1, mod=r.choice([9, 6, 0]), chans=0, path="file")
    c.sample(sc[-1], 1)

    def ev(i, x):
        if x["end"] != "ok":
            return [{"end": x["end"]}]
        o = x["out"][0]
        for ch in o["chans"]:
            for b in ch["bands"]:
                for e in b["fx"]:
                    e["ws"] = e["wb"] = []
        return [dict(evs[i], end="ok", o=o, at=0)]
    c.decide("TracePcm", sc, ev)


CHECKS["P01"] = p01
