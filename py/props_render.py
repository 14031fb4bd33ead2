"""Rendering: the value of bands and channels at points in time (E01)."""
CHECKS = {}
EMPTY = {"id": -1, "phase": [], "sem": [], "base": [], "type": 0, "kfs": [], "tl": [], "ws": [], "wb": []}


def effect(r, bt, pos, unit, lo, up, first0=False, far=0):
    """An effect of a band of type bt at tick pos, its keyframes at multiples of unit ticks, and its length."""
    e = dict(EMPTY, pos=pos, kfs=[])
    amp = lambda: r.choice([10000, -10000, 0, 5000, r.randint(-10000, 10000)])
    if bt == 3:
        e["ws"] = [amp() for _ in range(r.choice([1, 2, 16, 40]))]
        return e, 0
    n = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 7] if bt == 1 else [0, 1, 1, 2, 2, 3, 4]) if not first0 else r.choice([1, 3, 4, 5, 6, 8, 12])
    ln = r.choice([4, 10, 30, 60]) * unit
    if far:
        ln = r.choice([60, min(1000, far), far]) * unit
    ps = sorted(r.sample(range(0, ln // unit + 1), min(n, ln // unit + 1)))
    if n > 2 and r.random() < .25:
        g = r.choice([1, 2, 5])
        ps = [ps[0] + g * i for i in range(n)]
    if ps and (first0 or r.random() < .5):
        ps[0] = 0
    freq = lambda: r.randint(max(lo, 1), up)
    for p in ps:
        k = {"p": [p * unit], "a": [amp()], "f": []}
        if bt == 0:
            k["f"] = [freq()]
        if bt == 2:
            k["f"] = [freq()]
            c = r.random()
            if c < .2:
                k["a"] = []
            elif c < .4:
                k["f"] = []
            elif c < .45:
                k["a"], k["f"] = [], []
        elif r.random() < .1 and not first0:
            k["a"] = []
        e["kfs"].append(k)
    if bt == 2:
        e["phase"] = r.choice([[], [0], [15708], [31416], [r.randint(0, 62831)]])
        e["base"] = r.choice([[], [0], [1], [2], [3], [4]])
        if ps and ps[0] == 0 and r.random() < .3:
            e["kfs"][0]["p"] = []          # the effect begins with it
    return e, (ps[-1] * unit if ps else 0)


def last(f):
    return (f["kfs"][-1]["p"] or [0])[0]


def e01(c):
    r = c.rng
    sc, evs = [], []
    for _ in range(4000 if c.thorough else 700):
        ts, fs = r.choice([(1000, 1000), (1000, 1000), (8000, 1000), (8000, 8000), (1000, 500), (8000, 2000), (44100, 4410)])
        step = ts // fs
        apart = r.random() < .7            # effects of a band do not overlap, curves sit on the sampling grid
        bands = []
        far = r.random() < .15             # long effects, far from the start
        for _ in range(r.choice([1, 1, 1, 2, 3, 4, 6])):
            bt = r.randint(0, 3)
            lo = r.choice([0, 65, 100])
            up = r.choice([lo + 10, 300, 1000, 1000, 20000])
            b = {"type": bt, "curve": r.choice([[1], [2], [1], [2], [3], [3], [4], [5], [5], [0], []]) if bt == 1 else [], "blk": [0], "lo": lo, "up": up, "prio": [], "fx": []}
            if bt == 3:
                b["up"] = r.choice([fs, fs // 2, fs * 2])
                b["blk"] = r.choice([[], [0], [16], [100]])
            pos = r.choice([0, 0, 5, 17]) * step
            if far and r.random() < .3:
                pos = r.choice([300, 4000, 10000]) * step
            long = min(2500, 9 * 10**7 // (ts * step), 60000 // step) if far and (bt == 2 or b["curve"] in ([1], [2])) else 0
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                e, ln = effect(r, bt, pos, step if bt == 1 and apart else r.choice([1, step]), lo, up, bt == 1 and apart, long)
                b["fx"].append(e)
                if apart:
                    if bt == 0:
                        ln += 22 * ts // 1000 + 1
                    if bt == 3:
                        ln = len(e["ws"]) * ts // b["up"] + 1
                    ln = -(-ln // step) * step
                    pos += ln + r.choice([1, 3, 20]) * step
                else:
                    pos += r.choice([0, 1, 7, 30, 60]) * step
            bands.append(b)
        end = max([f["pos"] + (last(f) if f["kfs"] else 0) for b in bands for f in b["fx"]] + [1])
        n = r.choice([0, 1, 40, 90])
        pad = r.choice([0, 0, 0, 10, -10, 3])
        if pad * ts % 1000 or (pad * fs % 1000 and any(b["type"] == 1 for b in bands)):
            pad = 0
        at, grid = [], []
        curved = [b for b in bands if b["type"] == 1]
        for i in range(n):
            t = i * step - pad * ts // 1000
            g = apart
            for b in curved:               # a sampled curve holds its last value where the pointwise one has ended
                if b["curve"] not in ([1], [2]):
                    g = False
                if g and any(f["pos"] + last(f) == t for f in b["fx"]):
                    g = False
            if g:
                at.append(t)
            grid.append(len(at) if g else 0)
        for _ in range(12):
            at.append(r.randint(-3 * step, end + 30 * step))
        for b in bands:
            for f in b["fx"]:
                for k in f["kfs"][-2:]:
                    at += [f["pos"] + (k["p"] or [0])[0] + d for d in (-1, 0, 1)]
                at.append(f["pos"])
        ch = {"id": 1, "desc": "", "prio": [], "gain": 10000, "mix": 10000, "mask": [0, 1], "ref": [], "fs": [], "sc": [], "dir": [],
              "res": [], "bpt": [], "act": [], "vert": [], "bands": bands}
        h = {"version": "2023", "profile": "Main", "level": 1, "date": "", "desc": "", "ts": [ts], "avatars": [], "syncs": [],
             "percs": [{"id": 0, "avatar": 0, "desc": "", "prio": [], "scheme": [], "mod": 0, "ue": [], "pue": [], "dev": [], "lib": [],
                        "chans": [ch]}]}
        sc.append([{"op": "build", "exp": h}, {"op": "render", "at": at, "fs": fs, "pad": pad, "n": n}])
        evs.append({"ts": ts, "fs": fs, "pad": pad, "bands": bands, "at": at, "grid": grid})
    c.sample(sc[-1], 1)

    def ev(i, x):
        if x["end"] != "ok":
            return [{"end": x["end"]}]
        return [dict(evs[i], end="ok", o=x["out"][1])]
    c.decide("TraceRender", sc, ev)


CHECKS["E01"] = e01
