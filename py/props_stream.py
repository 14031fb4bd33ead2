"""Properties of the streaming format (MIHS)."""
import json, os
import gen
import author
import vlib

KEYWORDS = ["UX/Undefined", "UX/Click", "UX/Message", "Avatar/Undefined", "Avatar/Footstep", "SpecialFX/Noise",
            "WeaponCombat/Undefined", "WeaponCombat/Blast", "Ambient/Thunderbolt", "Texture/Plastic", "Vehicle/AirFriction",
            "Music/Undefined", "Music/WoodWindInstrument"]
DURATIONS = [1, 7, 16, 50, 64, 100, 128, 333, 1000, 5000]


def small_blocks():
    return [b for b in range(1, 256)]


def dom(r, **kw):
    o = dict(prio=True, semantics=KEYWORDS, max_blk=small_blocks(), timescale=[1000, 1000, 8000, 48000, 1])
    if r.random() < .5:
        o.update(max_perc=1, max_chan=1, max_band=2)
    else:
        o.update(max_perc=2, max_chan=2, max_band=2)
    if r.random() < .4:
        o.update(no_ids=True)
    if r.random() < .4:
        o.update(max_pos=300, max_len=60)
    o.update(kw)
    return gen.D(r, **o)


def with_syncs(r, h, D, horizon=1500):
    if r.random() < .5:
        return h
    n = r.randint(1, 4)
    ts = sorted({r.choice([0, D, 2 * D, r.randint(0, 4 * D), r.randint(0, horizon)]) for _ in range(n)})
    h["syncs"] = [{"t": t, "ts": [1000]} for t in ts]
    return h


def shuffle_fx(r, h):
    """Effects of a band may overlap and need not be sorted."""
    for p in h["percs"]:
        for c in p["chans"]:
            for b in c["bands"]:
                if b["type"] == 3:
                    continue
                if r.random() < .3:
                    for e in b["fx"]:
                        e["pos"] = r.randint(0, 200)
                if r.random() < .2:
                    r.shuffle(b["fx"])
                if r.random() < .1 and b["fx"]:
                    b["fx"][r.randrange(len(b["fx"]))]["kfs"] = []
    return h


def some_ids(r, h):
    """Effects with small, dense identifiers and effects without one side by side: the writer must choose others."""
    if r.random() < .5:
        return h
    n = 0
    fx = [e for p in h["percs"] for c in p["chans"] for b in c["bands"] for e in b["fx"] if e["type"] == 0]
    inner = [e for p in h["percs"] for c in p["chans"] for b in c["bands"] for e in b["fx"]]
    while inner:
        inner = [t for e in inner for t in e["tl"]]
        fx += [t for t in inner if t["type"] == 0]
    q = r.choice([.3, .5, .8])
    r.shuffle(fx)
    for e in fx:
        e["id"] = -1
        if r.random() < q:
            e["id"] = n
            n += r.choice([1, 1, 1, 2])
    return h


def fix_domain(r, h):
    """Into the domain of streams: no schemes needed, wavelet bands hold blocks only."""
    for p in h["percs"]:
        if r.random() < .2:
            p["scheme"] = [r.choice(["urn:a", "urn:mpeg:mpegi:haptics:effectsemantic:2023", ""])]
        for e in p["lib"]:
            if r.random() < .3:
                e["sem"] = [r.choice(KEYWORDS)]
        for c in p["chans"]:
            for b in c["bands"]:
                if b["type"] == 3:
                    for e in b["fx"]:
                        e["sem"] = []
    return h


def same_id(r, h):
    """A basis effect with the identifier that a reference of its band refers to."""
    used, inner = set(), [e for p in h["percs"] for c in p["chans"] for b in c["bands"] for e in b["fx"]]
    while inner:
        used |= {e["id"] for e in inner if e["type"] == 0}
        inner = [t for e in inner for t in e["tl"]]
    for p in h["percs"]:
        for c in p["chans"]:
            for b in c["bands"]:
                refs = [e["id"] for e in b["fx"] if e["type"] == 1 and e["id"] not in used]
                fx = [e for e in b["fx"] if e["type"] == 0]
                if refs and fx and r.random() < .5:
                    e, i = r.choice(fx), r.choice(refs)
                    e["id"] = i
                    used.add(i)
    return h


def last_moment(e):
    return e["pos"] + max([0] + [k["p"][0] for k in e["kfs"] if k["p"]] + [last_moment(t) for t in e["tl"]])


def make(r, **kw):
    D = r.choice(DURATIONS)
    h = same_id(r, some_ids(r, fix_domain(r, shuffle_fx(r, with_syncs(r, dom(r, **kw).experience(), D)))))
    if not kw and r.random() < .2:
        gen.stretch(r, h, positions=r.random() < .6, keyframes=r.random() < .6, wide=[65535, 65536, 10 ** 6, 3 * 2 ** 20])
        if r.random() < .5:
            D = r.choice([65535, 65536, 2 ** 20, 2 ** 20 + 77, 5 * 10 ** 6])
    end = max([last_moment(e) for p in h["percs"] for c in p["chans"] for b in c["bands"] for e in b["fx"]] + [0]) + 600
    while end // D > 300:
        D *= 4
    return h, D


AUTHORED = {"maxPerc": 1, "maxChan": 1, "maxBand": 1, "maxFx": 2, "maxKf": 2, "bands": [0, 1, 2, 3], "kinds": [0, 1, 2],
            "positions": [0, 49, 50, 110], "offsets": [0, 1, 50], "amps": [10000], "overlap": True, "library": True,
            "ids": False, "partial": True, "blk": 16}
AUTHORED_WIDE = dict(AUTHORED, maxPerc=2, maxChan=2, maxBand=2, maxFx=3, maxKf=1, positions=[0, 50], offsets=[0, 60], kinds=[0, 1],
                     bands=[0, 2, 3])


def authored(c, quick_limit, thorough_limit):
    """TLC's experiences, with the time range and the synchronisation marks varied over them."""
    es = author.experiences(c, AUTHORED, limit=thorough_limit if c.thorough else quick_limit)
    es += author.experiences(c, AUTHORED_WIDE, limit=(thorough_limit if c.thorough else quick_limit) // 2)
    out = []
    for k, e in enumerate(es):
        D = [50, 10, 16, 1000][k % 4]
        marks = [[], [0], [50], [60, 70], [0, 100, 160], [1], [111]][k % 7]
        e["syncs"] = [{"t": t, "ts": [1000]} for t in marks]
        if k % 5 == 4:
            for p in e["percs"]:
                p["mod"] = [10, 11, 12][k % 3]
        out.append((e, D))
    return out


def large(r, n_fx, n_kf, D, bands=(2, 0)):
    """Units of more than 64 KiB, or many units."""
    h, _ = mc_experiences(r, False)[0]
    h["syncs"] = []
    bs = []
    for t in bands:
        fxs = []
        for i in range(n_fx):
            kfs = [{"p": [j], "a": [r.randint(-10000, 10000)], "f": [r.randint(0, 1000)] if t != 1 else []} for j in range(n_kf)]
            fxs.append({"id": -1, "pos": i * n_kf, "phase": [], "sem": [], "base": [], "type": 0, "tl": [], "ws": [], "wb": [], "kfs": kfs})
        bs.append({"type": t, "curve": [1] if t == 1 else [], "blk": [0], "lo": 0, "up": 1000, "prio": [], "fx": fxs})
    h["percs"][0]["chans"][0]["bands"] = bs
    return h, D


def large_blocks(r, n, size):
    h, D = large(r, 0, 0, 5000, ())
    h["percs"][0]["chans"][0]["bands"] = [
        {"type": 3, "curve": [], "blk": [128], "lo": 0, "up": 1000, "prio": [],
         "fx": [{"id": -1, "pos": 128 * i, "phase": [], "sem": [], "base": [], "type": 0, "tl": [], "ws": [],
                 "wb": [r.randint(0, 255) for _ in range(size)], "kfs": []} for i in range(n)]}]
    return h, D


def many_bands(r, n_chan, n_band):
    """More bands than seven bits can number (they are numbered through the experience)."""
    h, _ = large(r, 1, 2, 16, (0,))
    p = h["percs"][0]
    c, b = p["chans"][0], p["chans"][0]["bands"][0]
    p["chans"] = [dict(c, id=40 * k, bands=[dict(b, up=1000 + j, fx=[dict(b["fx"][0], pos=r.randint(0, 30), kfs=[{"p": [k], "a": [100 * j], "f": [j]}])])
                                            for j in range(n_band)]) for k in range(n_chan)]
    return h, 16


def bigs(r, thorough):
    out = [large_blocks(r, 2, 40000), large(r, 3, 60, 7, (1, 2)), large(r, 260, 1, 400000, (1,)),
           large_blocks(r, 70, 2), large(r, 2, 100, 41, (0, 1, 2)), many_bands(r, 5, 51)]
    if thorough:
        out += [large_blocks(r, 3, 65535), large(r, 3, 900, 11), large(r, 700, 3, 5)]
    return out


def to_bytes(s):
    return [int(s[i:i + 8], 2) for i in range(0, len(s) - len(s) % 8, 8)]


def end_of(x, n):
    return x["end"] if x["end"] != "ok" else ("ok" if len(x["out"]) >= n else "short")


def s01(c):
    """Round trip through units in memory and through the file."""
    r = c.rng
    meta, sc = [], []
    for h, D in authored(c, 1200, 20000) + [make(r) for _ in range(500 if not c.thorough else 6000)] + bigs(r, c.thorough):
        meta.append((D,))
        sc.append([{"op": "build", "exp": h}, {"op": "mihs_file_rt", "dur": D}])

    def ev(i, x):
        e = end_of(x, 2)
        if e != "ok":
            return [{"end": e, "k": "trip"}]
        o = x["out"][1]
        return [{"end": "ok", "k": "trip", "in": x["out"][0], "D": meta[i][0], "r": o["w"] and o["l"] and o["r"], "h": o["h"]}]
    c.sample({"exp": sc[0][0]["exp"], "D": meta[0][0]}, 1)
    c.decide("TraceStream", sc, ev)


def sent(meta):
    def ev(i, x):
        e = end_of(x, 2)
        if e != "ok":
            return [{"end": e, "k": "send"}]
        o = x["out"][1]
        return [{"end": "ok", "k": "send", "in": x["out"][0], "D": meta[i][0], "w": o["w"],
                 "aligned": all(len(u) % 8 == 0 for u in o["units"]), "units": [to_bytes(u) for u in o["units"]]}]
    return ev


def s02(c):
    """What the sender puts into which unit."""
    r = c.rng
    meta, sc = [], []
    for h, D in authored(c, 1200, 20000) + [make(r) for _ in range(450 if not c.thorough else 6000)] + bigs(r, c.thorough):
        meta.append((D,))
        sc.append([{"op": "build", "exp": h}, {"op": "mihs_write", "dur": D}])

    c.sample({"exp": sc[0][0]["exp"], "D": meta[0][0]}, 1)
    c.decide("TraceStream", sc, sent(meta))


def s03(c):
    """Framing of every unit, and files as sequences of units: whole, cut short, extended."""
    r = c.rng
    meta, sc = [], []
    for h, D in authored(c, 500, 6000) + [make(r) for _ in range(200 if not c.thorough else 3000)] + bigs(r, c.thorough):
        meta.append(D)
        sc.append([{"op": "build", "exp": h}, {"op": "mihs_file_rt", "dur": D}])
    res = c.run(sc)

    def ev(i, x):
        e = end_of(x, 2)
        if e != "ok":
            return [{"end": e, "k": "file"}]
        o = x["out"][1]
        raw = list(bytes.fromhex(o["hex"]))
        loaded = [to_bytes(u) for u in o["units"]]
        # the units a file holds are found by their lengths alone
        units, p = [], 0
        while p + 9 <= len(raw):
            n = (((raw[p + 4] & 15) << 28) | (raw[p + 5] << 20) | (raw[p + 6] << 12) | (raw[p + 7] << 4) | (raw[p + 8] >> 4))
            units.append(raw[p:p + 9 + n])
            p += 9 + n
        if p < len(raw):
            units.append(raw[p:])
        return [{"end": "ok", "k": "framing", "w": o["w"], "aligned": all(len(u) % 8 == 0 for u in o["units"]), "units": loaded},
                {"end": "ok", "k": "file", "l": o["l"], "loaded": loaded, "units": units}]
    c.decide("TraceStream", sc, ev)
    # files that end early: at every unit boundary and at positions between
    cut, want = [], []
    for x in res:
        if x["end"] != "ok" or len(x["out"]) < 2 or not x["out"][1]["hex"]:
            continue
        o = x["out"][1]
        raw = o["hex"]
        ends, p = {0: 0}, 0
        for k, u in enumerate(o["units"]):
            p += len(u) // 8
            ends[p] = k + 1
        for n in {r.choice(sorted(ends)), r.choice(sorted(ends)) + r.choice([-1, 1, 3, 8, 9]), r.randint(0, len(raw) // 2)}:
            if 0 < n <= len(raw) // 2:
                cut.append([{"op": "mihs_readfile", "hex": raw[:2 * n]}])
                want.append((n in ends, ends.get(n, -1)))
    if not c.thorough:
        cut, want = cut[:1500], want[:1500]

    def ev2(i, x):
        e = end_of(x, 1)
        if e != "ok":
            return [{"end": e, "k": "cut"}]
        o = x["out"][0]
        return [{"end": "ok", "k": "cut", "ok": want[i][0], "want": want[i][1], "l": o["l"], "n": o["n"], "r": o["r"]}]
    c.decide("TraceStream", cut, ev2)


def deliveries(c, sc, meta):
    """Replays recorded deliveries step by step against the receiver of the specification."""
    def ev(i, x):
        e = end_of(x, 2)
        if e != "ok":
            return [{"end": e, "k": "join", "wait": False}]
        o = x["out"][1]
        us = [to_bytes(u) for u in o["units"]]
        out = [{"end": "ok", "k": "join", "wait": bool(sc[i][1]["wait"])}]
        for s in o["steps"]:
            out.append({"end": "ok", "k": "unit", "b": us[s["i"] - 1], "o": s})
        out.append({"end": "ok", "k": "known", "in": x["out"][0], "h": o["h"], "meta": meta[i]})
        return out
    return ev


def mc_experiences(r, thorough):
    """Small experiences whose streams exercise dependent units, silences and repeated initializations."""
    import copy
    fx = lambda pos, ps, **k: dict({"id": -1, "pos": pos, "phase": [], "sem": [], "base": [], "type": 0, "tl": [], "ws": [], "wb": [],
                                    "kfs": [{"p": [p], "a": [10000 - 1000 * n], "f": [100 + n]} for n, p in enumerate(ps)]}, **k)
    band = lambda t, fxs, **k: dict({"type": t, "curve": [0] if t == 1 else [], "blk": [50] if t == 3 else [0], "lo": 0, "up": 1000, "prio": [], "fx": fxs}, **k)
    ref = lambda pos: fx(pos, [], type=1, id=1)
    wav = lambda k: fx(50 * k, [], wb=[k, 2, 3])
    lib = [dict(fx(0, [0, 5]), id=1, base=[0], phase=[0])]
    out = []
    shapes = [
        [[band(0, [fx(0, [0, 60, 120])])]],
        [[band(2, [fx(10, [0, 100]), fx(160, [0])])]],
        [[band(1, [fx(0, [0, 10]), fx(20, [0, 150])]), band(0, [fx(100, [0, 1])])]],
        [[band(3, [wav(0), wav(1), wav(2), wav(3)])]],
        [[band(2, [fx(0, [0, 55]), ref(70)])], [band(0, [fx(120, [0])])]],
        [[band(0, [fx(220, [0, 30, 60])])]],
        [[band(2, [fx(0, [0, 50, 100, 150, 200])])]],
    ]
    for k, bands in enumerate(shapes):
        for marks in ([], [60], [60, 150]) if not thorough else ([], [1], [60], [60, 150], [50, 51, 130, 200]):
            for D in ((50,) if not thorough else (50, 30, 100)):
                h = {"version": "2023", "profile": "Main", "level": 2, "date": "2023", "desc": "", "ts": [1000],
                     "avatars": [{"id": 3, "lod": 1, "type": 1, "mesh": []}], "syncs": [{"t": t, "ts": [1000]} for t in marks],
                     "percs": [{"id": 7, "avatar": 3, "desc": "", "prio": [], "scheme": [], "mod": 4, "ue": [], "pue": [], "dev": [],
                                "lib": copy.deepcopy(lib), "chans": [
                                    {"id": 20 + j, "desc": "", "prio": [], "gain": 10000, "mix": 10000, "mask": [0, 0], "ref": [], "fs": [], "sc": [],
                                     "dir": [], "res": [], "bpt": [], "act": [], "vert": [], "bands": copy.deepcopy(b)}
                                    for j, b in enumerate(bands)]}]}
                out.append((h, D))
    return out


def explore(c, exps, max_lost, max_reps):
    p = os.path.join(c.wd, "stream_params.json")
    json.dump({"exps": [{"x": h, "D": D} for h, D in exps], "maxLost": max_lost, "maxReps": max_reps}, open(p, "w"))
    rc, out = vlib.tlc("StreamMC", {"PARAMS": p}, c.wd, heap="6g", workers="8")
    if rc != 0 or "No error has been found" not in out:
        raise vlib.CheckError("StreamMC: " + out[-3000:])
    return sorted({line for line in out.splitlines() if line.startswith('"SCH')})


def s04(c):
    """Late joiners and lossy channels: TLC's schedules, and random ones over generated experiences."""
    r = c.rng
    exps = mc_experiences(r, c.thorough)
    sch = [json.loads(json.loads(l)[3:]) for l in explore(c, exps, 3 if not c.thorough else 5, 1)]
    c.cov["schedules_of_tlc"] = len(sch)
    lim = 1500 if not c.thorough else 30000
    if len(sch) > lim:
        sch = r.sample(sch, lim)
    sc, meta = [], []
    for n, s in enumerate(sch):
        h, D = exps[s["e"] - 1]
        sc.append([{"op": "build", "exp": h}, {"op": "mihs_deliver", "dur": D, "wait": n % 2, "order": s["hist"]}])
        meta.append(1 in s["hist"])
    for _ in range(300 if not c.thorough else 4000):
        h, D = make(r, max_chan=2, max_fx=4)
        N = 60
        mode = r.random()
        if mode < .4:                       # join late, then lose nothing
            j = r.randint(1, 6)
            order = ([1] if r.random() < .7 else []) + list(range(j, N))
        else:                               # losses anywhere
            pr = r.choice([.1, .3, .6])
            order = [k for k in range(1, N) if (k == 1 and r.random() < .9) or r.random() > pr]
        sc.append([{"op": "build", "exp": h}, {"op": "mihs_deliver", "dur": D, "wait": r.randint(0, 1), "order": order}])
        meta.append(1 in order)
    c.sample(sch[0], 1)
    c.decide("TraceStream", sc, deliveries(c, sc, meta))
    # what is sent lets a receiver join: the flags and contents of every unit of the same streams
    seen, sc2 = set(), []
    for s in sc:
        k = json.dumps([s[0], s[1]["dur"]])
        if k not in seen:
            seen.add(k)
            sc2.append([s[0], {"op": "mihs_write", "dur": s[1]["dur"]}])
    c.decide("TraceStream", sc2, sent([(s[1]["dur"],) for s in sc2]))


def s05(c):
    """Repeated initializations change nothing but the list of synchronisation points."""
    r = c.rng
    sc, meta = [], []
    for h, D in [(h, D) for h, D in mc_experiences(r, True)] + [make(r) for _ in range(350 if not c.thorough else 4000)]:
        if not h["syncs"]:
            h["syncs"] = [{"t": t, "ts": [1000]} for t in sorted(r.sample(range(1, 400), r.randint(1, 4)))]
        order = [1] * r.randint(1, 3)
        for k in range(2, 80):
            order.append(k)
        sc.append([{"op": "build", "exp": h}, {"op": "mihs_deliver", "dur": D, "wait": 0, "order": order}])
        meta.append(True)
    c.sample(sc[0], 1)
    c.decide("TraceStream", sc, deliveries(c, sc, meta))
    # the same stream with every repetition doubled
    sc2, meta2 = [], []
    res = c.run(sc)
    for s, x in zip(sc, res):
        if end_of(x, 2) != "ok":
            continue
        us = x["out"][1]["units"]
        order = []
        for k, u in enumerate(us[:80]):
            order += [k + 1] * (r.randint(1, 3) if int(u[:6], 2) == 0 else 1)
        sc2.append([s[0], dict(s[1], order=order)])
        meta2.append(True)

    def ev(i, x):
        out = deliveries(c, sc2, meta2)(i, x)
        if len(out) > 1:
            us = x["out"][1]["units"]
            if len(us) <= 80:
                o = x["out"][1]
                h = dict(o["h"])
                h["syncs"] = res_syncs(o, us)
                h["ts"] = x["out"][0]["ts"] if x["out"][0]["ts"] else [1000]
                out.append({"end": "ok", "k": "trip", "in": x["out"][0], "D": sc2[i][1]["dur"], "r": True, "h": h})
        return out
    c.decide("TraceStream", sc2, ev)


def res_syncs(o, us):
    """The synchronisation points without those of doubled deliveries."""
    out, n, seen = [], 0, set()
    for s in o["steps"]:
        if int(us[s["i"] - 1][:6], 2) == 0:
            if s["i"] not in seen and n < len(o["h"]["syncs"]):
                out.append(o["h"]["syncs"][n])
            seen.add(s["i"])
            n += 1
    return out


def s06(c):
    """Check values over the first n units: written, accepted when intact, rejected when not."""
    r = c.rng
    sc, clean = [], []
    base = [(h, D) for h, D in mc_experiences(r, False)] + [make(r, max_perc=1, max_chan=1, max_band=2, devices=False) for _ in range(60 if not c.thorough else 400)]
    base += [large(r, 4, 50, 10, (0,)), large(r, 3, 40, 1, (1,)), large(r, 2, 100, 25, (2, 0))]
    n = 700 if not c.thorough else 12000
    for k in range(n):
        h, D = base[k % len(base)]
        ty = [7, 8, 9, 10][k % 4]
        m = 1 if ty in (7, 8) and r.random() < .9 else r.choice([1, 2, 3, 5, 20, 200])
        flip, cflip = [], []
        mode = r.random()
        if mode < .5:
            for _ in range(r.choice([1, 1, 1, 2, 3, 8])):
                flip.append([r.randint(0, m - 1) if r.random() < .8 else r.randint(0, 100), r.choice([r.randint(0, 400), r.randint(0, 5000)])])
            if r.random() < .4:             # a burst
                u, b0 = r.randint(0, m - 1), r.randint(0, 2000)
                flip = [[u, b0 + j] for j in range(r.randint(2, 40)) if r.random() < .6]
        elif mode < .65:
            cflip = [r.randint(8 if ty in (9, 10) else 0, 39) for _ in range(r.randint(1, 3))]
        elif mode < .7 and ty in (9, 10):
            cflip = [r.randint(0, 7)]
        sc.append([{"op": "build", "exp": h}, {"op": "mihs_crc", "dur": D, "n": m, "type": ty, "flip": flip, "cflip": cflip, "alone": k % 3 == 0}])
        clean.append(not flip and not cflip)
    for ty in (7, 8, 9, 10):                # every bit of the value
        for j in range(40):
            h, D = base[j % len(base)]
            sc.append([{"op": "build", "exp": h}, {"op": "mihs_crc", "dur": D, "n": 1, "type": ty, "flip": [], "cflip": [j]}])
            clean.append(False)

    def ev(i, x):
        e = end_of(x, 2)
        if e != "ok":
            return [{"end": e, "k": "crc"}]
        o = x["out"][1]
        d = {"end": "ok", "k": "crc", "type": sc[i][1]["type"], "n": o["n"], "wc": o["wc"], "clean": clean[i],
             "units": [to_bytes(u) for u in o["units"][:o["n"] + 1]]}
        for k in ("rc", "announced", "check", "known", "left"):
            d[k] = o.get(k, 0)
        return [d]
    c.sample(sc[0], 1)
    c.decide("TraceStream", sc, ev)
    # end to end: a reader that finds a wrong check value waits for the next independent unit
    sc2 = []
    for k in range(200 if not c.thorough else 3000):
        h, D = base[r.randrange(len(base))]
        ty = r.choice([7, 8, 9, 10])
        n, value = 1 if ty in (7, 8) else r.randint(1, 4), {7: (0, 15), 8: (0, 31), 9: (8, 23), 10: (8, 39)}[ty]
        sc2.append([{"op": "build", "exp": h}, {"op": "mihs_crc", "dur": D, "n": n, "type": ty, "file": 1, "at": r.choice([0, 1, 2, 3]),
                                               "flip": [], "cflip": [r.randint(*value)] if r.random() < .7 else []}])

    def ev2(i, x):
        e = end_of(x, 2)
        if e != "ok":
            return [{"end": e, "k": "join", "wait": False}]
        o = x["out"][1]
        out = [{"end": "ok", "k": "join", "wait": False}]
        for k, u in enumerate(o["units"]):
            out.append({"end": "ok", "k": "through", "b": to_bytes(u)})
            if k == o["at"] and sc2[i][1]["cflip"]:
                out.append({"end": "ok", "k": "distrust"})
        out.append({"end": "ok", "k": "known", "in": x["out"][0], "h": o["h"], "meta": True})
        return out
    c.decide("TraceStream", sc2, ev2)


def harm(r, b):
    """One way a file is damaged."""
    b = bytearray(b)
    m = r.randint(0, 6)
    at = lambda: r.randrange(len(b))
    if m == 0:
        b[at()] = r.randint(0, 255)
    elif m == 1:
        for _ in range(r.randint(1, 6)):
            b[at()] ^= 1 << r.randint(0, 7)
    elif m == 2:
        i = at()
        del b[i:i + r.randint(1, 20)]
    elif m == 3:
        i = at()
        b[i:i] = bytes(r.randint(0, 255) for _ in range(r.randint(1, 5)))
    elif m == 4:
        b[at()] = r.choice([0, 255, 127, 128])
    elif m == 5:
        i, n = at(), r.randint(2, 30)
        b[i:i + n] = bytes(r.randint(0, 255) for _ in b[i:i + n])
    else:
        i, j = at(), at()
        b[i:i] = b[j:j + r.randint(1, 60)]
    return bytes(b)


def s07(c):
    """Damaged packets, units and files."""
    r = c.rng
    sc = []
    base = mc_experiences(r, False)
    for k in range(1200 if not c.thorough else 12000):
        h, D = base[k % len(base)] if k % 4 == 0 else make(r, max_chan=2, max_fx=4)
        order, w = [], r.randint(0, 1)
        if r.random() < .5:                 # damage to one unit, from which the rest must not suffer
            u = r.choice([1, 1, 2, 3, 4, 8])
            hit = {u: r.randint(1, 3)}
        else:
            hit = {u: r.choice([0, 0, 1, 2]) for u in range(1, 12)}
        for u in range(1, 40):
            after = r.random() < .3         # the intact unit comes first or later
            bad = [[u, r.choice([0, 1, 1, 1, 2, 3, 4]), r.choice([0, 999, r.randint(0, 999)]), r.choice([0, 999, r.randint(0, 999), r.randint(900, 999)])]
                   for _ in range(hit.get(u, 0))]
            order += ([[u, -1]] if after else []) + bad + ([] if after else [[u, -1]])
        sc.append([{"op": "build", "exp": h}, {"op": "mihs_damage", "dur": D, "wait": w, "order": order}])

    def ev(i, x):
        e = end_of(x, 2)
        if e != "ok":
            return [{"end": e, "k": "join", "wait": False}]
        o = x["out"][1]
        out = [{"end": "ok", "k": "join", "wait": bool(sc[i][1]["wait"])}]
        for s in o["steps"]:
            out.append({"end": "ok", "k": "unit" if s["kind"] < 0 else "damaged", "b": to_bytes(s.pop("b")), "unit": s["kind"] == 2, "o": s})
        out.append({"end": "ok", "k": "known", "in": x["out"][0], "h": o["h"], "meta": True})
        return out
    c.sample(sc[1], 1)
    c.decide("TraceStream", sc, ev)
    # any bytes
    hx = vlib.build_harness()
    ws = [[{"op": "build", "exp": h}, {"op": "mihs_file_rt", "dur": D}]
          for h, D in base[:20] + [make(r, max_chan=2, max_fx=4) for _ in range(60 if not c.thorough else 400)]]
    files = [bytes.fromhex(x["out"][1]["hex"]) for x in vlib.run_scenarios(hx, ws, c.wd, tag="w") if x["end"] == "ok"]
    files = [f for f in files if 0 < len(f) < 6000]
    if not files:
        raise vlib.CheckError("no stream could be written")
    sc2 = []
    for k in range(3000 if not c.thorough else 60000):
        b = r.choice(files)
        for _ in range(r.choice([1, 1, 1, 2, 4])):
            b = harm(r, b) or b"\0"
        sc2.append([{"op": "mihs_readfile", "hex": b.hex()}])

    def ev2(i, x):
        e = end_of(x, 1)
        return [{"end": e, "k": "any", "r": e == "ok" and x["out"][0]["r"], "l": e == "ok" and x["out"][0]["l"]}]
    c.decide("TraceStream", sc2, ev2)


CHECKS = {"S07": s07, "S01": s01, "S02": s02, "S03": s03, "S04": s04, "S05": s05, "S06": s06}


def wide_metadata(r):
    """One experience per count field of the metadata packets, beyond what a narrower field could hold."""
    from props_binary import big_experiences
    es = big_experiences(r)
    for h in es:
        for b in [b for p in h["percs"] for c in p["chans"] for b in c["bands"] if b["type"] == 3]:
            b.update(blk=[16], up=1000)
            for k, e in enumerate(b["fx"]):
                e["pos"] = 16 * k
    return [fix_domain(r, es[k]) for k in (4, 5, 6, 7, 8, 9, 10, 12, 13)]


def s08(c):
    """The bytes of the metadata packets, read by the reader of the specification."""
    from props_binary import most_elements, texts_of
    r = c.rng
    sc = []
    for h, D in authored(c, 300, 4000) + [make(r) for _ in range(450 if not c.thorough else 5000)] + bigs(r, c.thorough)[1:] + \
            [(h, 100000) for h in wide_metadata(r)]:
        sc.append([{"op": "build", "exp": h}, {"op": "mihs_write", "dur": D}])

    def ev(i, x):
        e = end_of(x, 2)
        if e != "ok":
            return [{"end": e, "k": "units"}]
        o = x["out"][1]
        us = [to_bytes(u) for u in o["units"] if u[:6] == "000000"]
        return [{"end": "ok", "k": "units", "in": x["out"][0], "w": o["w"] and all(len(u) % 8 == 0 for u in o["units"]), "units": us[:1] + us[-1:],
                 "t": texts_of(x["out"][0]), "m": most_elements(x["out"][0])}]
    c.sample(sc[0][0]["exp"], 1)
    c.decide("TraceLayout", sc, ev)


CHECKS["S08"] = s08
