"""Properties of the binary file format (HMPG)."""
import re
import gen
import author


def _rt(op):
    def ev(i, x):
        o = x["out"]
        if x["end"] != "ok" or len(o) < 2:
            return [{"end": x["end"] if x["end"] != "ok" else "short"}]
        return [{"end": "ok", "in": o[0], "res": o[1]}]
    return ev


def b01(c):
    r = c.rng
    sc = []
    for e in author.experiences(c, "file"):
        sc.append([{"op": "build", "exp": e}, {"op": "bin_rt"}])
    c.cov["authored_by_tlc"] = len(sc)
    n = 4000 if c.thorough else 500
    for k in range(n):
        d = gen.D(r, **({} if k % 3 else {"max_perc": 1, "max_chan": 1, "max_band": 2}))
        h = wavelet_kinds(r, d.experience())
        sc.append([{"op": "build", "exp": gen.stretch(r, h) if k % 4 == 1 else h}, {"op": "bin_rt"}])
    for e in big_experiences(r):
        sc.append([{"op": "build", "exp": e}, {"op": "bin_rt"}])
    for e in r.sample(author.experiences(c, "file_wide"), 300 if not c.thorough else 3000):
        sc.append([{"op": "build", "exp": e}, {"op": "bin_rt"}])
    c.sample(sc[0][0]["exp"], 1)
    c.decide("TraceBinary", sc, _rt("bin_rt"))


CHECKS = {"B01": b01}


WIDTHS = list(range(1, 33))


def field(r):
    k = r.choice(["u", "u", "u", "i", "f", "f", "s", "v"])
    if k == "u":
        n = r.choice(WIDTHS)
        v = r.choice([0, 1, 2 ** n - 1, 2 ** (n - 1), r.getrandbits(n), r.getrandbits(n)])
        return {"k": k, "n": n, "v": [v >> 16, v & 0xFFFF]}
    if k == "i":
        n = r.choice(WIDTHS[1:])
        lo, hi = -2 ** (n - 1), 2 ** (n - 1) - 1
        return {"k": k, "n": n, "v": r.choice([0, -1, 1 if n > 1 else 0, lo, hi, r.randint(lo, hi), r.randint(lo, hi)])
                if n < 32 else r.choice([0, -1, 1, r.randint(-2 ** 30, 2 ** 30), 2 ** 31 - 1, -2 ** 31])}
    if k == "f":
        n = r.choice([8, 16, 32])
        mn, mx = r.choice([(-10000, 10000), (0, 62831), (0, 100000000), (-100000000, 100000000), (-10000, 30000)])
        x = r.choice([mn, mx, (mn + mx) // 2, mn + 1, mx - 1, r.randint(mn, mx), r.randint(mn, mx), mn - 5000, mx + 5000])
        return {"k": k, "n": n, "x": x, "min": mn, "max": mx}
    if k == "s":
        n = r.choice([0, 1, 5, r.randint(0, 40), r.choice([254, 255, 256, 300])])
        return {"k": k, "s": [r.randint(0, 255) for _ in range(n)]}
    return {"k": k, "v": [r.choice([-128, -1, 0, 1, 127, r.randint(-128, 127)]) for _ in range(3)]}


def _bits_ev(sc):
    def ev(i, x):
        if x["end"] != "ok" or not x["out"]:
            return [{"end": x["end"] if x["end"] != "ok" else "short"}]
        o = x["out"][0]
        out, off = [], 0
        for f, g in zip(sc[i][0]["fields"], o["fields"]):
            out.append({"end": "ok", "k": f["k"], "f": f, "o": g, "bits": o["bits"][off:g["end"]]})
            off = g["end"]
        out.append({"end": "ok", "k": "close", "left": o["left"], "fill": o["fill"], "reread": o["reread"], "bytes": len(o["bytes"])})
        return out
    return ev


def b02(c):
    r = c.rng
    sc = []
    for n in WIDTHS:       # every width, behind every alignment
        for off in range(8):
            for v in (0, 2 ** n - 1, 0xA5A5A5A5 & (2 ** n - 1), 1):
                pre = [{"k": "u", "n": off, "v": [0, 2 ** off - 1]}] if off else []
                sc.append([{"op": "prim_seq", "fields": pre + [{"k": "u", "n": n, "v": [v >> 16, v & 0xFFFF]},
                                                                 {"k": "u", "n": 3, "v": [0, 5]}]}])
    for n, mn, mx in ((8, -10000, 10000), (16, 0, 62831)):     # every 8-bit code, a sample of the 16-bit ones
        for q in range(0, 256):
            x = mn + (mx - mn) * q // 255
            sc.append([{"op": "prim_seq", "fields": [{"k": "f", "n": n, "x": x, "min": mn, "max": mx}]}])
    for _ in range(8000 if c.thorough else 700):
        sc.append([{"op": "prim_seq", "fields": [field(r) for _ in range(r.randint(1, 14))]}])
    c.sample(sc[-1], 1)
    c.decide("TraceBits", sc, _bits_ev(sc))


CHECKS["B02"] = b02


def _one(i, x):
    if x["end"] != "ok" or not x["out"]:
        return [{"end": x["end"] if x["end"] != "ok" else "short"}]
    return [{"end": "ok", "o": x["out"][0]}]


TIMESCALES = [1000, 8000, 48000, 1, 600, 44100]


def any_band(r, bt, **kw):
    """A band for an arbitrary timescale: (band, timescale)."""
    d = gen.D(r, **kw)
    libids = [1, 2, 300, 65535] if d.refs else []
    if bt != 3:
        return d.band(bt, None, libids), r.choice(TIMESCALES)
    # the length of a block is a whole number of ticks, or (what the encoder makes) that number rounded down
    ts = r.choice([1000, 8000, 48000, 1000, 48000, 1, 600, 999, 11025, 16384, 22050, 44100, 96000, 1000000])
    up, smp = r.choice([(u, 2 ** k) for u in (1, 49, 72, 250, 333, 441, 500, 1000, 2000, 4000, 8000, 11025, 16000, 22050, 48000, 65535)
                        for k in range(4, 15) if 2 ** k * ts // u < 2 ** 25 and ((2 ** k * ts) % u == 0 or r.random() < .3)])
    blk = smp * ts // up
    b = {"type": 3, "curve": [], "blk": [blk], "lo": r.choice([0, up]), "up": up, "prio": [], "fx": []}
    for k in range(r.randint(0, 5)):
        b["fx"].append(d.effect(3, k * blk, 0, None, []))
    return other_kinds(r, b), ts


def other_kinds(r, b):
    """Among the blocks of a wavelet band, effects of the other kinds (a block's own position is its rank in the band)."""
    for k, e in enumerate(b["fx"]):
        x = r.random()
        if x < .1:
            b["fx"][k] = dict(e, type=1, id=r.choice([1, 40000]), wb=[])
        elif x < .2:
            t = [dict(e, pos=r.choice([0, 1, 70000])) for _ in range(r.randint(0, 3))]
            b["fx"][k] = dict(e, type=2, wb=[], tl=t)
    return b


def wavelet_kinds(r, h):
    if r.random() < .3:
        for p in h["percs"]:
            for c in p["chans"]:
                for b in c["bands"]:
                    if b["type"] == 3:
                        other_kinds(r, b)
    return h


def b03(c):
    r = c.rng
    sc = []
    for k in range(6000 if c.thorough else 900):
        bt = k % 4
        b, ts = any_band(r, bt, max_fx=r.choice([1, 3, 8]), max_kf=r.choice([1, 4, 12]))
        if r.random() < .15 and bt != 3 and b["fx"]:
            b["fx"][-1]["pos"] = r.choice([2 ** 25 - 1, 2 ** 24, 65536])
        if r.random() < .1 and bt != 3 and b["fx"] and b["fx"][-1]["kfs"]:
            b["fx"][-1]["kfs"][-1]["p"] = [65535]
        if r.random() < .2 and bt != 3:
            for e in b["fx"]:
                for t in e["tl"]:
                    t["pos"] = r.choice([0, 5] + gen.WIDE_POS + [2 ** 25 - 1])
        sc.append([{"op": "band_rt", "band": b, "ts": ts}])
    for bt, nfx, nkf in ((0, 300, 1), (1, 260, 2), (2, 520, 1), (0, 1, 300), (1, 1, 400), (2, 1, 700), (3, 300, 0)):
        sc.append([{"op": "band_rt", "band": big_band(r, bt, nfx, nkf), "ts": 1000}])
    for bt in range(4):        # more children than eight bits can count
        b = big_band(r, bt, 300, 1)
        e = dict(b["fx"][0], type=2, kfs=[], wb=[], phase=[], base=[], tl=b["fx"])
        sc.append([{"op": "band_rt", "band": dict(b, fx=[e, e]), "ts": 1000}])
    c.sample(sc[0], 1)
    c.decide("TraceBand", sc, _one)


def big_band(r, bt, nfx, nkf):
    d = gen.D(r, refs=False, comps=False)
    b = {"type": bt, "curve": [2] if bt == 1 else [], "blk": [16] if bt == 3 else [0], "lo": 0, "up": 1000, "prio": [], "fx": []}
    for k in range(nfx):
        e = d.effect(bt, 16 * k, 1, None, [])
        if bt != 3:
            e["kfs"] = d.keyframes(bt, 2 * nkf, n=nkf)
        else:
            e["wb"] = [r.randint(0, 255) for _ in range(r.choice([1, 300]) if k % 50 == 0 else 2)]
        b["fx"].append(e)
    return b


def big_experiences(r):
    """One experience per count field of the file, beyond what a narrower field could hold."""
    d = gen.D(r, max_perc=1, max_chan=1, max_band=1, max_fx=1, max_kf=1, refs=False, comps=False)
    out = []

    def one():
        h = d.experience()
        while not h["percs"] or not h["percs"][0]["chans"] or not h["percs"][0]["chans"][0]["bands"]:
            h = d.experience()
        return h

    def small_band(k):
        return {"type": 0, "curve": [], "blk": [0], "lo": 0, "up": k + 1, "prio": [],
                "fx": [{"id": -1, "pos": k, "phase": [], "sem": [], "base": [], "type": 0,
                        "kfs": [{"p": [0], "a": [10000], "f": [k]}], "tl": [], "ws": [], "wb": []}]}
    for bt, nfx, nkf in ((0, 300, 1), (1, 1, 300), (2, 1, 300), (3, 280, 0)):
        h = one()
        h["percs"][0]["chans"][0]["bands"] = [big_band(r, bt, nfx, nkf)]
        out.append(h)
    h = one()
    h["percs"][0]["chans"][0]["bands"] = [small_band(k) for k in range(200)]
    out.append(h)
    h = one()
    h["percs"][0]["chans"][0]["vert"] = [k * k for k in range(300)]
    out.append(h)
    h = one()
    h["percs"][0]["lib"] = [d.libeffect(k) for k in range(300)]
    out.append(h)
    for kind in ("kfs", "tl"):
        h = one()
        e = d.libeffect(9)
        if kind == "kfs":
            e["kfs"] = d.keyframes(2, 600, n=300)
        else:
            e["tl"] = [dict(d.libeffect(k), pos=k) for k in range(300)]
        h["percs"][0]["lib"] = [d.libeffect(1), e, d.libeffect(2)]
        out.append(h)
    h = one()
    h["percs"][0]["dev"] = [d.device(k) for k in range(200)]
    out.append(h)
    h = one()
    h["avatars"] = [{"id": k, "lod": k % 7, "type": k % 4, "mesh": ["m%d" % k] if k % 4 == 0 else []} for k in range(1, 200)]
    out.append(h)
    h = one()
    ch = h["percs"][0]["chans"][0]
    h["percs"][0]["chans"] = [dict(ch, id=k, bands=[small_band(k % 50)]) for k in range(0, 300)]
    out.append(h)
    h = one()
    pc = dict(h["percs"][0], lib=[], dev=[], chans=[dict(ch, ref=[], bands=[small_band(3)])])
    h["percs"] = [dict(pc, id=k) for k in range(200)]
    out.append(h)
    h = one()
    ch = h["percs"][0]["chans"][0]
    ch.update(res=[[1, 2, 3]], bpt=[[gen.ALL_BPT[k % 25] for k in range(200)]], act=[[[k - 100, 1, -1] for k in range(200)]], mask=[0, 0])
    out.append(h)
    h = one()
    e = small_band(1)["fx"][0]
    h["percs"][0]["chans"][0]["bands"] = [dict(small_band(1), fx=[dict(e, type=2, kfs=[], tl=[dict(e, pos=k) for k in range(300)])])]
    out.append(h)
    return out


CHECKS["B03"] = b03


def texts_of(h):
    """Every text of a projected experience and its bytes, for a specification that cannot look into strings."""
    out = set()

    def walk(v):
        if isinstance(v, str):
            out.add(v)
        elif isinstance(v, dict):
            for k in v:
                walk(v[k])
        elif isinstance(v, list):
            for k in v:
                walk(k)
    walk(h)

    def raw(s):        # the projection writes unusual bytes as \\xNN
        return list(re.sub(rb"\\x([0-9a-f]{2})", lambda m: bytes([int(m.group(1), 16)]), s.encode()))
    return [{"b": raw(s), "s": s} for s in sorted(out) if s]


def most_elements(v):
    """The length of the longest list anywhere in a projected experience."""
    if isinstance(v, dict):
        return max([0] + [most_elements(k) for k in v.values()])
    if isinstance(v, list):
        return max([len(v)] + [most_elements(k) for k in v])
    return 0


def file_experiences(c, n, wide):
    r = c.rng
    out = author.experiences(c, "file", limit=n)
    for k in range(n):
        h = wavelet_kinds(r, gen.D(r, **({} if k % 3 else {"max_perc": 1, "max_chan": 1, "max_band": 2})).experience())
        out.append(gen.stretch(r, h) if k % 4 == 1 else h)
    return out + big_experiences(r) + author.experiences(c, "file_wide", limit=wide)


def b04(c):
    """The bytes of a file, read by the reader of the specification."""
    sc = [[{"op": "build", "exp": e}, {"op": "bin_write"}] for e in file_experiences(c, 4000 if c.thorough else 500, 3000 if c.thorough else 200)]

    def ev(i, x):
        o = x["out"]
        if x["end"] != "ok" or len(o) < 2:
            return [{"end": x["end"] if x["end"] != "ok" else "short", "k": "file"}]
        return [{"end": "ok", "k": "file", "in": o[0], "w": o[1]["w"], "b": list(bytes.fromhex(o[1]["hex"])), "t": texts_of(o[0]), "m": most_elements(o[0])}]
    c.sample(sc[0][0]["exp"], 1)
    c.decide("TraceLayout", sc, ev)


CHECKS["B04"] = b04
