"""OHM metadata files (T01)."""
import struct
import vlib
CHECKS = {}
WORDS = ["Pressure", "Acceleration", "Velocity", "Position", "Temperature", "Vibration", "Vibrotactile", "Water", "Wind",
         "Kinesthetic", "Force", "Vibrotactile Texture", "Texture", "Stiffness", "Friction", "Other"]
WORDS += [w + " effect" for w in WORDS[:-1]] + ["Electrotactile", "", "pressure", "Pressure ", "effect"]


def codes(s):
    return list(s.encode("latin1"))


def text(r, width):
    k = r.random()
    n = r.choice([0, 1, 5, width - 1, width, width + 1, 2 * width, r.randint(0, width)])
    if k < .6:
        s = [r.randint(32, 126) for _ in range(n)]
    else:
        s = [r.choice([1, 9, 10, 26, 127, 128, 200, 255, 65]) for _ in range(n)]
    if r.random() < .08:
        s = s[:3] + [0] + s[3:]
    return s


GAINS = [0.0, 1.0, -1.0, 0.5, 1e-30, 3.4e38, 0.1, 255.0, float("inf")]


def ohm(r):
    els = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        ch = []
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            g = struct.pack("<f", r.choice(GAINS) if r.random() < .5 else r.uniform(-9, 9))
            ch.append({"desc": text(r, 32), "gain": list(g),
                       "mask": r.choice([[0, 0], [0xFFFF, 0xFFFF], [0x8000, 0], [0, 128], [0, 0x8080], [0x80, 0],
                                         [r.randint(0, 65535), r.randint(0, 65535)]])})
        els.append({"file": text(r, 64), "desc": codes(r.choice(WORDS)) if r.random() < .7 else text(r, 32), "chans": ch})
    return {"ver": r.choice([1, 0, 2, 127, 128, 255, 256, 2023, 32767, -1, -32768]), "desc": text(r, 32), "els": els}


def size(o):
    return 40 + sum(98 + 40 * len(e["chans"]) for e in o["els"])


def held(b, n):
    b = b[:n]
    while b and b[-1] == 0:
        b = b[:-1]
    return b


def t01(c):
    r = c.rng
    sc = []
    objs = []
    for w in WORDS:
        objs.append({"ver": 1, "desc": [], "els": [{"file": codes("a"), "desc": codes(w), "chans": []}]})
    for bit in range(32):
        m = 1 << bit
        objs.append({"ver": 1, "desc": [65], "els": [{"file": [66], "desc": [], "chans": [
            {"desc": [], "gain": [0, 0, 128, 63], "mask": [m >> 16, m & 65535]}]}]})
    for n, k in ((301 + r.randint(0, 99), 0), (130, 1), (1, 260 + r.randint(0, 99)), (2, 140)):
        objs.append({"ver": 1, "desc": [65], "els": [{"file": [66, i % 256], "desc": [], "chans": [
            {"desc": [j % 255 + 1], "gain": [0, 0, 128, 63], "mask": [0, j]} for j in range(k)]} for i in range(n)]})
    objs += [ohm(r) for _ in range(8000 if c.thorough else 900)]
    for o in objs:
        n = size(o)
        cuts = sorted({r.randint(0, n - 1) for _ in range(3)} | {n - 1, r.choice([0, 3, 4, 5, 6, 7, 8, 39, 40, 41, 103, 104, 136, 137, 138, 139])})
        sc.append([{"op": "ohm_rt", "ohm": o, "other": r.choice(objs[:40]), "name": "name%d.hjif" % r.randint(0, 9),
                    "cuts": [x for x in cuts if x < n]}])
    for _ in range(4000 if c.thorough else 500):      # damaged files
        o = ohm(r)
        b = bytearray(b"OHM " + struct.pack(">hh", o["ver"], r.choice([len(o["els"]), 0, 1, 3, -1, 32767])))
        b += bytes((o["desc"] + [0] * 32)[:32])
        for e in o["els"]:
            b += bytes((e["file"] + [0] * 64)[:64]) + bytes((e["desc"] + [0] * 32)[:32])
            b += struct.pack(">h", r.choice([len(e["chans"]), 0, 1, 2, -1, 32767]))
            for ch in e["chans"]:
                b += bytes((ch["desc"] + [0] * 32)[:32]) + bytes(ch["gain"]) + bytes([1, 2, 3, 4])
        for _ in range(r.randint(0, 3)):
            b[r.randrange(len(b))] = r.randint(0, 255)
        sc.append([{"op": "ohm_load", "bytes": list(b)}])
    c.sample(sc[-1], 1)

    def ev(i, x):
        o = sc[i][0]
        if x["end"] != "ok":
            return [{"end": x["end"]}]
        if o["op"] == "ohm_rt":
            return [{"end": "ok", "k": "trip", "ohm": o["ohm"], "name": codes(o["name"]), "res": x["out"][0],
                     "text": ["".join(map(chr, held(e["desc"], 32))) if all(31 < b < 127 for b in held(e["desc"], 32)) else "?" for e in o["ohm"]["els"]]}]
        if x["out"][0]["r"] and len(x["out"][0]["back"]["els"]) * 98 > len(o["bytes"]):
            return [{"end": "accepts more elements than there are bytes"}]
        return [{"end": "ok", "k": "any", "bytes": o["bytes"], "res": x["out"][0]}]
    c.decide("TraceOhm", sc, ev)


CHECKS["T01"] = t01
