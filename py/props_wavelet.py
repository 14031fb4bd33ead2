"""Wavelet streams: the arithmetic coder (W01) and the block code (W02)."""
import json, os
import vlib
CHECKS = {}


def explore(c, p):
    f = os.path.join(c.wd, "spiht_params.json")
    json.dump(p, open(f, "w"))
    rc, out = vlib.tlc("SpihtMC", {"PARAMS": f}, c.wd, heap="6g", workers="8")
    if rc != 0 or "No error has been found" not in out:
        raise vlib.CheckError("SpihtMC: " + out[-3000:])
    return sorted({tuple(json.loads(json.loads(l)[3:])) for l in out.splitlines() if l.startswith('"BLK')})


MODELS = [[8, 16], [1, 32], [31, 32], [1, 5000], [4999, 5000]]


def stream(r, n):
    """Symbols with a bias per context that changes along the way."""
    cs = r.sample(range(7), r.randint(1, 7))
    bias = {c: r.choice([0, .001, .02, .2, .5, .8, .98, .999, 1]) for c in cs}
    sym, ctx = [], []
    while len(sym) < n:
        if r.random() < .02:
            bias[r.choice(cs)] = r.random()
        c = r.choice(cs)
        ctx.append(c)
        sym.append(1 if r.random() < bias[c] else 0)
    return {"sym": sym, "ctx": ctx, "reset": r.random() < .5}


def w01(c):
    r = c.rng
    explore(c, {"models": MODELS, "len": 8 if c.thorough else 6, "n": 16, "lev": 1, "nonzero": 0, "values": [1], "all": False})
    sc = []
    k = 12 if c.thorough else 8
    for n in range(1, k + 1):           # every short sequence in one context
        for v in range(2 ** n):
            sc.append([{"sym": [(v >> i) & 1 for i in range(n)], "ctx": [v % 7] * n, "reset": False}])
    for _ in range(4000 if c.thorough else 500):
        sc.append([stream(r, r.choice([1, 2, 5, 20, 60, 200, 400])) for _ in range(r.randint(1, 4))])
    for _ in range(100 if c.thorough else 16):      # long runs drive the model to its ends
        n = r.choice([1200, 2500, 4000])
        a = r.randint(0, 1)
        sym = [a] * n
        for _ in range(r.randint(0, 4)):
            sym[r.randint(n // 2, n - 1)] = 1 - a
        x = r.randint(0, 6)
        sc.append([{"sym": sym, "ctx": [x] * n, "reset": r.random() < .3}, stream(r, 50),
                   {"sym": [r.randint(0, 1) for _ in range(40)], "ctx": [r.choice([x, x, r.randint(0, 6)]) for _ in range(40)],
                    "reset": False}])
    for a in (0, 1):                # so long that the estimated probability rounds to certainty
        sym = [a] * 18500
        for k in (17500, 18000, 18001, 18499 - r.randint(0, 90)):
            sym[k] = 1 - a
        sc.append([{"sym": sym, "ctx": [r.randint(0, 6)] * len(sym), "reset": True}, stream(r, 50)])
    for n in (0, 1, 7, 300):
        sc.append([{"sym": [0] * n, "ctx": [2] * n, "reset": False}, stream(r, 9)])
    c.sample([len(s["sym"]) for s in sc[-6]], 1)
    ops = [[{"op": "arith", "streams": s}] for s in sc]

    def ev(i, x):
        if x["end"] != "ok":
            return [{"end": x["end"]}]
        return [{"end": "ok", "k": "coder", "streams": sc[i], "o": x["out"][0]["streams"]}]
    c.decide("TraceSpiht", ops, ev)


CHECKS["W01"] = w01


def coeffs(r, n, lev):
    """A block of n coefficients with magnitudes below 2^(lev+1): sparse, decaying, flat, single, extreme."""
    top = 2 ** (lev + 1) - 1
    k = r.randint(0, 6)
    x = [0] * n
    if k == 0:
        for _ in range(r.randint(1, 4)):
            x[r.randrange(n)] = r.choice([-1, 1]) * r.randint(1, top)
    elif k == 1:
        for i in range(n):
            x[i] = int(r.uniform(-1, 1) * top / (1 + i / 4))
    elif k == 2:
        x = [r.randint(-top, top) for _ in range(n)]
    elif k == 3:
        x[r.choice([0, 1, 7, 8 % n, n // 2 - 1, n // 2, n - 1])] = r.choice([-top, top, 1, -1])
    elif k == 4:
        x = [r.choice([0, 0, 0, 0, 1, -1]) for _ in range(n)]
    elif k == 5:
        x = [r.choice([top, -top]) for _ in range(n)]
    else:
        for i in range(n // 2, n):
            if r.random() < .1:
                x[i] = r.randint(-top, top)
    return x


def wav(r):
    return r.choice([r.randint(0, 127), 128 + 16 * r.randint(0, 127), r.randint(128, 128 + 16 * 127), 0, 127, 128])


def w02(c):
    r = c.rng
    lev = 2
    blocks = explore(c, {"models": [], "len": 0, "n": 16, "lev": lev, "nonzero": 3 if c.thorough else 2,
                         "values": [1, -1, 2, -3, 7, -4], "all": True})
    c.cov["blocks_of_tlc"] = len(blocks)
    if len(blocks) > 6000 and not c.thorough:
        blocks = r.sample(blocks, 6000)
    sc = []
    for i in range(0, len(blocks), 40):
        sc.append([{"op": "spiht_rt", "blocks": [{"x": list(x), "lev": lev, "wav": 77} for x in blocks[i:i + 40]]}])
    for _ in range(1500 if c.thorough else 260):
        bl = []
        for _ in range(r.randint(1, 3)):
            n = 2 ** r.choice([3, 4, 4, 5, 5, 6, 7])
            lv = r.choice([0, 1, 2, 3, 5, 7]) if n > 32 else r.choice([0, 1, 2, 5, 8, 11, 14, 15])
            bl.append({"x": coeffs(r, n, lv), "lev": lv, "wav": wav(r)})
        if r.random() < .2:
            bl[0]["x"] = [0] * len(bl[0]["x"])
        sc.append([{"op": "spiht_rt", "blocks": bl}])
    for n, lv in ((256, 6), (512, 3), (512, 1), (1024, 1)) * (6 if c.thorough else 1):
        sc.append([{"op": "spiht_rt", "blocks": [{"x": coeffs(r, n, lv), "lev": lv, "wav": wav(r)}]}])
    for _ in range(2000 if c.thorough else 300):
        bl = []
        for _ in range(r.randint(1, 3)):
            k = r.choice([0, 1, 2, 3, 5, 9, 20, 60])
            b = [r.choice([0, 255, 1, 128, r.randint(0, 255)]) for _ in range(k)]
            bl.append({"bytes": b, "n": 2 ** r.choice([4, 4, 5, 6])})
        sc.append([{"op": "spiht_dec", "blocks": bl}])
    for _ in range(800 if c.thorough else 120):       # blocks of any length: nothing is written past their end
        k = r.choice([0, 1, 4, 20, 60])
        sc.append([{"op": "spiht_dec", "blocks": [{"bytes": [r.choice([255, r.randint(0, 255)]) for _ in range(k)],
                                                   "n": r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 17, 20, 31, 48, 100])}]}])
    c.sample(sc[-1], 1)

    def ev(i, x):
        o = sc[i][0]
        if x["end"] != "ok":
            return [{"end": x["end"]}]
        out = []
        for b, y in zip(o["blocks"], x["out"][0]["blocks"]):
            if o["op"] == "spiht_rt":
                out.append({"end": "ok", "k": "block", "x": b["x"], "lev": b["lev"], "wav": b["wav"], "o": y})
            else:
                out.append({"end": "ok", "k": "any", "bytes": b["bytes"], "n": b["n"], "o": y})
        return out
    c.decide("TraceSpiht", sc, ev)


CHECKS["W02"] = w02


def wave(r, n, top=10000):
    """n samples: tones, steps, noise, pulses, silence."""
    import math
    k = r.randint(0, 6)
    if k == 0:
        return [0] * n
    if k == 1:
        f, p = r.uniform(0, math.pi), r.uniform(0, 6)
        return [int(top * math.sin(f * i + p)) for i in range(n)]
    if k == 2:
        return [r.randint(-top, top) for _ in range(n)]
    if k == 3:
        x = [0] * n
        for _ in range(r.randint(1, 3)):
            x[r.choice([0, n - 1, r.randrange(n)])] = r.choice([-top, top])
        return x
    if k == 4:
        a = r.randrange(n)
        return [top if i >= a else -top for i in range(n)]
    if k == 5:
        return [r.choice([-top, top])] * n
    return [int(top * math.exp(-i / 9) * math.sin(.4 * i)) for i in range(n)]


def w03(c):
    r = c.rng
    th = c.thorough
    sc, evs = [], []
    for _ in range(2500 if th else 220):
        n = 2 ** r.choice([3, 4, 5, 6, 7, 8])
        lv = r.randint(1, int(n).bit_length() - 3)
        x = wave(r, n)
        sc.append([{"op": "dwt", "x": x, "levels": lv}])
        evs.append({"k": "dwt", "x": x, "levels": lv})
    for i in (8, 16, 32):                      # every unit block
        for k in range(i):
            x = [10000 if j == k else 0 for j in range(i)]
            lv = i.bit_length() - 3
            sc.append([{"op": "dwt", "x": x, "levels": lv}])
            evs.append({"k": "dwt", "x": x, "levels": lv})
    for _ in range(2500 if th else 250):
        n = 2 ** r.choice([3, 4, 4, 5, 6, 7])
        up, ts = r.choice([(8000, 1000), (8000, 8000), (1000, 1000), (2000, 1000), (4000, 8000), (500, 1000), (250, 1000), (48000, 48000)])
        blk = n * ts // up
        if blk * up != n * ts:
            continue
        k = r.randint(1, 5 if n < 64 else 2)
        step = r.choice([1, 1, 1, 2, 3])
        bl, top = [], 0
        for j in range(k):
            lv = r.choice([0, 1, 2, 5, 7]) if n > 32 else r.choice([0, 1, 2, 5, 8, 11])
            x = coeffs(r, n, lv)
            if not any(x):
                x[0] = 1
            w = wav(r)
            bl.append({"x": x, "lev": lv, "wav": w, "pos": blk * j * step})
            top = max(top, max(map(abs, x)) * w / 128 / 2 ** lv)
        if r.random() < .2:
            bl[0]["pos"] += r.randint(0, blk)
            bl.sort(key=lambda b: b["pos"])
        s = int(max(1, min(1000, 20000 / max(top, .001) / 1.5 ** (n.bit_length() - 3))))
        o = {"op": "wave_dec", "blk": blk, "up": up, "ts": ts, "s": s, "blocks": bl}
        sc.append([o])
        evs.append({"k": "dec", "blk": blk, "up": up, "ts": ts, "s": s, "blocks": bl})
    for _ in range(1500 if th else 160):
        n = 2 ** r.choice([4, 4, 5, 6, 7])
        fs, ts = r.choice([(8000, 1000), (8000, 8000), (1000, 1000), (2000, 1000), (4000, 8000)])
        if (n * ts) % fs or n * ts // fs > 255:
            continue
        m = r.choice([1, n - 1, n, n + 1, 2 * n, 2 * n + n // 3]) if n < 64 else r.choice([n // 2, n, n + 5])
        if n == 16 and r.random() < .2:
            m = n * r.randint(20, 70) + r.randint(0, n - 1)
        sig = wave(r, m)
        if r.random() < .2:
            sig = [v // 50 for v in sig]
        b = r.choice([0, 1, 5, 20, 15 * (n.bit_length() - 2), 200])
        o = {"op": "wave_rt", "sig": sig, "bl": n, "fs": fs, "budget": b, "lo": r.choice([0, 40, 100]), "ts": ts}
        sc.append([o])
        evs.append(dict({k: v for k, v in o.items() if k != "op"}, k="rt"))
    c.sample(sc[-1], 1)

    def ev(i, x):
        if x["end"] != "ok":
            return [{"end": x["end"]}]
        return [dict(evs[i], end="ok", o=x["out"][0])]
    c.decide("TraceWavelet", sc, ev)


CHECKS["W03"] = w03
