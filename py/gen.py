"""Deterministic (seeded) generator of canonical experiences.  Every format property says which
domain it quantifies over; `D` carries the limits of that domain."""
import random

SC = 10000
ALL_BPT = [0, 1, 10, 11, 12, 13, 14, 15, 20, 21, 22, 23, 24, 30, 31, 32, 33, 34, 35, 36, 37, 40, 41, 42, 43,
           50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 254, 255]
WORDS = ["", "a", "Test", "hello world", "The quick brown fox jumps over the lazy dog", "x" * 100, "y" * 255,
         "tab\tand \"quotes\" \\ / {}[]", "caf\u00e9 \u2603"]
EDGE_MASKS = [0, 1, 2, 0x80, 0x8000, 0xFFFF, 0x10000, 0x800000, 0x80000000, 0xFFFFFFFF, 0x7FFFFFFF, 0xA5A5A5A5]


class D:
    """A generation domain."""

    def __init__(self, rng, **kw):
        self.r = rng
        self.max_perc, self.max_chan, self.max_band, self.max_fx, self.max_kf = 3, 3, 3, 4, 5
        self.modalities = list(range(14))
        self.band_types = [0, 1, 2, 3]
        self.timescale = [1000]
        self.refs = True        # reference effects
        self.comps = True       # composite effects
        self.library = True
        self.semantics = False
        self.prio = False
        self.syncs = False
        self.opt_kf = True      # vectorial keyframes may lack amplitude or frequency
        self.full_kf = False    # every keyframe carries what its band type needs
        self.strings = WORDS
        self.max_pos = 3000
        self.devices = True
        self.unique_chan_ids = False
        self.unique_ids = True
        self.bodyparts = True
        self.max_freq = 65535
        self.max_len = 600
        self.no_ids = False
        self.no_empty = False
        self.max_blk = None
        self.__dict__.update(kw)

    def opt(self, f, p=0.5):
        return [f()] if self.r.random() < p else []

    def mask(self):
        m = self.r.choice(EDGE_MASKS) if self.r.random() < .6 else self.r.getrandbits(32)
        return [m >> 16, m & 0xFFFF]

    def amp(self):
        r = self.r
        c = r.random()
        if c < .25:
            return r.choice([-SC, SC, 0, SC // 2, -SC // 2, SC // 100])
        return r.randint(-SC, SC)

    def string(self):
        r = self.r
        if r.random() < .7:
            return r.choice(self.strings)
        return "".join(chr(r.randint(32, 126)) for _ in range(r.randint(0, 40)))

    def i8(self):
        return self.r.choice([-128, -1, 0, 1, 127, self.r.randint(-128, 127)])

    def vec(self):
        return [self.i8(), self.i8(), self.i8()]

    def freq(self):
        r = self.r
        return r.choice([0, 1, 65, 255, 256, 1000, self.max_freq, r.randint(0, self.max_freq)])

    def keyframes(self, bt, maxlen, n=None, first0=False):
        r = self.r
        if n is None:
            n = r.randint(1, self.max_kf)
        ps = sorted(r.sample(range(0, max(maxlen, n) + 1), n))
        if ps and (first0 or r.random() < .5):
            ps[0] = 0
        out = []
        for p in ps:
            if bt == 0:
                k = {"p": [p], "a": [self.amp()], "f": [self.freq()]}
            elif bt == 1:
                k = {"p": [p], "a": [self.amp()], "f": []}
            else:
                k = {"p": [p], "a": [self.amp()], "f": [self.freq()]}
                if self.opt_kf and not self.full_kf:
                    c = r.random()
                    if c < .25:
                        k["a"] = []
                    elif c < .5:
                        k["f"] = []
                    elif c < .55:
                        k["a"] = []
                        k["f"] = []
            out.append(k)
        return out

    def effect(self, bt, pos, maxlen, ids, libids, depth=0):
        r = self.r
        e = {"id": -1, "pos": pos, "phase": [], "sem": [], "base": [], "type": 0, "kfs": [], "tl": [], "ws": [], "wb": []}
        if ids is not None and not self.no_ids:
            e["id"] = ids.pop()
        c = r.random()
        if self.refs and libids and c < .25:
            e["type"] = 1
            e["id"] = r.choice(libids)
            return e
        if self.comps and bt != 3 and c < .4 and depth < 2:
            e["type"] = 2
            p = 0
            for _ in range(r.randint(0, 3)):
                p += r.randint(0, 50)
                e["tl"].append(self.effect(bt, p, 40, None, libids, depth + 1))
            return e
        if bt == 3:
            e["wb"] = [r.randint(0, 255) for _ in range(r.randint(1, 12))]
            return e
        if bt == 2:
            e["phase"] = self.opt(lambda: r.choice([0, 31415, 62831, r.randint(0, 62831)]), .8)
            e["base"] = self.opt(lambda: r.randint(0, 4), .8)
        if self.semantics:
            e["sem"] = self.opt(lambda: r.choice(self.semantics), .3)
        e["kfs"] = self.keyframes(bt, maxlen)
        return e

    def band(self, bt, ids, libids):
        r = self.r
        lo = r.choice([0, 1, 65, 200, r.randint(0, 1000)])
        up = r.choice([lo + 1, 300, 1000, 8000, self.max_freq, r.randint(lo, 9000)])
        up = max(lo, up, 1)
        b = {"type": bt, "curve": [], "blk": [0], "lo": lo, "up": up, "prio": [], "fx": []}
        if self.prio:
            b["prio"] = self.opt(lambda: r.randint(1, 255), .4)
        if bt == 1:
            b["curve"] = [r.randint(0, 5)]
        n = r.randint(0 if self.r.random() < .1 and not self.no_empty else 1, self.max_fx)
        if bt == 3:
            up, smp = r.choice([(u, 2 ** k) for u in (250, 500, 1000, 2000, 4000, 8000) for k in range(4, 13)
                                if (2 ** k * 1000) % u == 0 and (self.max_blk is None or 2 ** k * 1000 // u in self.max_blk)])
            b["up"] = up
            b["lo"] = r.choice([0, 72, up])
            blk = smp * 1000 // up
            b["blk"] = [blk]
            for k in range(n):
                b["fx"].append(self.effect(3, k * blk, 0, None, []))
            return b
        pos = r.choice([0, 0, r.randint(0, self.max_pos // 3)])
        for _ in range(n):
            ln = r.randint(0, self.max_len)
            b["fx"].append(self.effect(bt, pos, ln, ids, libids))
            pos += ln + r.randint(0, self.max_pos // 4) + 1
        return b

    def channel(self, cid, ids, libids, devids):
        r = self.r
        c = {"id": cid, "desc": self.string(), "prio": [], "gain": r.choice([SC, 0, -SC, 5000, r.randint(-100 * SC, 100 * SC)]),
             "mix": r.choice([SC, 0, 2500, r.randint(0, 100 * SC)]), "mask": self.mask(), "ref": [], "fs": [], "sc": [],
             "dir": [], "res": [], "bpt": [], "act": [], "vert": [], "bands": []}
        if self.prio:
            c["prio"] = self.opt(lambda: r.randint(1, 255), .4)
        if devids:
            c["ref"] = self.opt(lambda: r.choice(devids), .6)
        if r.random() < .5:
            c["fs"] = [r.choice([1, 8000, 44100, r.randint(1, 2 ** 31 - 1)])]
            c["sc"] = [r.choice([0, 1, 4096, r.randint(0, 2 ** 31 - 1)])]
        c["dir"] = self.opt(self.vec, .4)
        if self.bodyparts and r.random() < .4:
            c["res"] = [self.vec()]
            c["bpt"] = [[r.choice(ALL_BPT) for _ in range(r.randint(0, 4))]]
            c["act"] = [[self.vec() for _ in range(r.randint(0, 4))]]
            c["mask"] = [0, 0]
        if r.random() < .5:
            c["vert"] = [r.choice([0, 1, 255, 65535, 2 ** 31 - 1, r.randint(0, 10 ** 6)]) for _ in range(r.randint(0, 5))]
        for _ in range(r.randint(0 if r.random() < .1 and not self.no_empty else 1, self.max_band)):
            c["bands"].append(self.band(r.choice(self.band_types), ids, libids))
        return c

    def device(self, did):
        r = self.r
        d = {"id": did, "name": self.string(), "mask": self.opt(self.mask, .8)}
        for k in ["maxF", "minF", "resF", "maxA", "imp", "maxV", "maxC", "maxD", "wei", "siz"]:
            d[k] = self.opt(lambda: r.choice([0, SC, 5000, 10000 * SC, r.randint(0, 10000 * SC), r.randint(0, 100 * SC)]), .5)
        d["cus"] = self.opt(lambda: r.choice([0, -SC, r.randint(-10000 * SC, 10000 * SC)]), .5)
        d["type"] = self.opt(lambda: r.randint(0, 4), .5)
        return d

    def libeffect(self, lid):
        r = self.r
        e = {"id": lid, "pos": 0, "phase": self.opt(lambda: r.randint(0, 62831)), "sem": [], "base": self.opt(lambda: r.randint(0, 4)),
             "type": 0, "kfs": self.keyframes(2, 200), "tl": [], "ws": [], "wb": []}
        return e

    def perception(self, pid, avatars, chan_ids):
        r = self.r
        p = {"id": pid, "avatar": r.choice(avatars) if avatars else 0, "desc": self.string(), "prio": [], "scheme": [],
             "mod": r.choice(self.modalities), "ue": self.opt(self.i8), "pue": self.opt(self.i8), "dev": [], "lib": [], "chans": []}
        if self.prio:
            p["prio"] = self.opt(lambda: r.randint(1, 255), .4)
        devids = []
        if self.devices:
            for i in r.sample(range(0, 255), r.randint(0, 3)):
                p["dev"].append(self.device(i))
                devids.append(i)
        libids = []
        if self.library:
            for i in sorted(r.sample(range(0, 60), r.randint(0, 3))):
                p["lib"].append(self.libeffect(i))
                libids.append(i)
        for _ in range(r.randint(0 if r.random() < .1 and not self.no_empty else 1, self.max_chan)):
            pool = list(range(100, 2000))
            r.shuffle(pool)
            p["chans"].append(self.channel(chan_ids.pop(), pool, libids, devids))
        return p

    def experience(self):
        r = self.r
        h = {"version": r.choice(["2023", "2024", "2023-1", "2025-3"]), "profile": r.choice(["Main", "Simple Parametric"]),
             "level": r.choice([1, 2]), "date": r.choice(["2023-01-01", "2024-12-31T23:59:59.999Z", self.string()]), "desc": self.string(),
             "ts": [r.choice(self.timescale)], "avatars": [], "syncs": [], "percs": []}
        avs = []
        for i in r.sample(range(1, 255), r.randint(0, 3)):
            t = r.randint(0, 3)
            h["avatars"].append({"id": i, "lod": r.randint(0, 255), "type": t, "mesh": [self.string()] if t == 0 else []})
            avs.append(i)
        pids = r.sample(range(0, 255), self.max_perc)
        for k in range(r.randint(0 if r.random() < .05 and not self.no_empty else 1, self.max_perc)):
            if self.unique_chan_ids:
                if k == 0:
                    ids = r.sample(range(0, 32767), 200)
            else:
                ids = r.sample(range(0, 32767 if r.random() < .5 else 12), 6)
            h["percs"].append(self.perception(pids[k], avs, ids))
        return h


WIDE_IDS = [32767, 32768, 40000, 50123, 65535]
WIDE_POS = [65535, 65536, 100000, 2 ** 20, 2 ** 23 + 5, 2 ** 24 - 1]


def keyframe_positions(r, k):
    """Positions of keyframes up to the 16 bits a format gives them, increasing."""
    n = len(k["kfs"])
    ps = sorted(r.sample([0, 1, 255, 256, 32767, 32768, 40000, 65534, 65535] + [r.randint(0, 65535) for _ in range(n)], min(n, 9)))
    ps = sorted(set(ps))
    k["kfs"] = k["kfs"][:len(ps)]
    for x, q in zip(k["kfs"], ps):
        x["p"] = [q]


def library_timeline(d, e, depth, n=None):
    """Gives a library effect a timeline of library effects (its kind, position and depth vary)."""
    r = d.r
    for _ in range(n or r.randint(1, 3)):
        t = d.libeffect(r.choice([0, 7, 300] + WIDE_IDS))
        t["kfs"] = t["kfs"][:r.randint(0, 2)]
        t["pos"] = r.choice([0, 1, 40, 255, 65536, 2 ** 24 - 1])
        t["type"] = r.choice([0, 0, 1, 2])
        if t["type"] != 0:
            t["phase"], t["base"] = [], []
        if depth and r.random() < .5:
            library_timeline(d, t, depth - 1)
        e["tl"].append(t)


def stretch(r, h, positions=True, keyframes=True, library=True, wide=WIDE_POS):
    """Pushes some fields of an experience to the upper part of their range."""
    d = D(r)
    used = {c["id"] for p in h["percs"] for c in p["chans"]}
    for p in h["percs"]:
        if library and p["lib"]:
            old = {}
            for e in p["lib"]:
                if r.random() < .4:
                    i = r.choice([w for w in WIDE_IDS if w not in old.values()] or [e["id"]])
                    old[e["id"]] = i
                    e["id"] = i
                e["pos"] = r.choice([0, 0, 5, 300, 65536, 2 ** 24 - 1])
                if r.random() < .3:
                    keyframe_positions(r, e)
                if r.random() < .5:
                    library_timeline(d, e, 2)
                if r.random() < .25:
                    e["type"] = r.choice([1, 2])
                    e["phase"], e["base"] = [], []

            def follow(es):
                for e in es:
                    if e["type"] == 1 and e["id"] in old:
                        e["id"] = old[e["id"]]
                    follow(e["tl"])
            for c in p["chans"]:
                for b in c["bands"]:
                    follow(b["fx"])
        for c in p["chans"]:
            if r.random() < .4:
                i = r.choice([32767, 32768, 40000, 65535, r.randint(0, 65535)])
                if i not in used:
                    used.add(i)
                    c["id"] = i
            for b in c["bands"]:
                if b["type"] == 3 or not b["fx"]:
                    continue
                if keyframes and r.random() < .3:
                    e = r.choice(b["fx"])
                    if e["type"] == 0 and e["kfs"]:
                        keyframe_positions(r, e)
                if positions and r.random() < .5:
                    e = b["fx"][-1]
                    if r.random() < .5:
                        e["pos"] = max(e["pos"], r.choice(wide))
                    q = 0
                    for t in sorted(e["tl"], key=lambda t: t["pos"]):
                        q = max(q, t["pos"], r.choice([0, 300] + wide))
                        t["pos"] = q
    return h
