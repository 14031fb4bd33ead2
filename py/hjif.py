"""An independent reader and writer of HJIF text: canonical experience <-> JSON.  The names and the
shape of the format are written down here once more, apart from the code under test."""
import json, struct

SC = 10000
AVATAR = ["Custom", "Vibration", "Pressure", "Temperature"]
BAND = ["Transient", "Curve", "VectorialWave", "WaveletWave"]
CURVE = ["Unknown", "Cubic", "Linear", "Akima", "Bezier", "Bspline"]
BASE = ["Sine", "Square", "Triangle", "SawToothUp", "SawToothDown"]
FX = ["Basis", "Reference", "Composite"]
ACT = ["Unknown", "LRA", "VCA", "ERM", "Piezo"]
MOD = ["Other", "Pressure", "Acceleration", "Velocity", "Position", "Temperature", "Vibrotactile", "Water", "Wind", "Force",
       "Vibrotactile Texture", "Stiffness", "Friction", "Electrotactile"]
MOD_ALIAS = {"Vibration": 6, "Kinesthetic": 9, "Texture": 10}
BPT = {"Unknown": 0, "All": 1, "Top": 10, "Down": 11, "Right": 12, "Left": 13, "Front": 14, "Back": 15, "Arm": 20, "Head": 21,
       "Chest": 22, "Waist": 23, "Leg": 24, "Upper-arm": 30, "Forearm": 31, "Hand": 32, "Crane": 33, "Neck": 34, "Thigh": 35,
       "Calf": 36, "Foot": 37, "Palm": 40, "Finger": 41, "Sole": 42, "Toe": 43, "Thumb": 50, "Index": 51, "Middle": 52, "Ring": 53,
       "Pinky": 54, "Hallux": 55, "Index-toe": 56, "Middle-toe": 57, "Ring-toe": 58, "Pinky-toe": 59, "First Phalanx": 60,
       "Second Phalanx": 61, "Third Phalanx": 62, "Minus": 254, "Plus": 255}
BPT_INV = {v: k for k, v in BPT.items()}
DEV = [("maxF", "maximum_frequency"), ("minF", "minimum_frequency"), ("resF", "resonance_frequency"), ("maxA", "maximum_amplitude"),
       ("imp", "impedance"), ("maxV", "maximum_voltage"), ("maxC", "maximum_current"), ("maxD", "maximum_displacement"),
       ("wei", "weight"), ("siz", "size"), ("cus", "custom")]
B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def sc(x):
    import math
    v = f32(x) * SC
    r = math.floor(abs(v) + 0.5)
    return max(-2000000000, min(2000000000, int(r if v >= 0 else -r)))


def safe(s):
    b = s.encode("utf-8", "surrogateescape")
    return "".join(chr(c) if 0x20 <= c < 0x7f and c != 0x5c else "\\x%02x" % c for c in b)


def bits_of(bs):
    b = [(x >> i) & 1 for x in bs for i in range(8)]
    while b and not b[-1]:
        b.pop()
    return b


def b64(bs):
    b = bits_of(bs)
    out = ""
    for i in range(0, len(b), 6):
        g = b[i:i + 6] + [0] * (6 - len(b[i:i + 6]))
        out += B64[int("".join(map(str, g)), 2)]
    return out


def unb64(s):
    b = []
    for ch in s:
        b += [int(x) for x in format(B64.index(ch), "06b")]
    while b and not b[-1]:
        b.pop()
    b += [0] * (-len(b) % 8)
    return [sum(b[i + k] << k for k in range(8)) for i in range(0, len(b), 8)]


def trim(bs):
    bs = list(bs)
    while bs and not bs[-1]:
        bs.pop()
    return bs


# ------------------------------------------------------------------ canonical experience -> JSON tree
class Num(float):
    """a real number, written so that it reads back exactly in single precision"""


def real(i):
    return Num(f32(i / SC))


def put(o, k, opt, f=lambda v: v):
    if opt:
        o[k] = f(opt[0])


def vecj(v):
    return {"X": v[0], "Y": v[1], "Z": v[2]}


def mask(m):
    return (m[0] << 16) | m[1]


def kfj(k):
    o = {}
    put(o, "relative_position", k["p"])
    put(o, "amplitude_modulation", k["a"], real)
    put(o, "frequency_modulation", k["f"])
    return o


def fxj(e, bt, lib=False):
    o = {"effect_type": FX[e["type"]], "position": e["pos"]}
    if lib or e["id"] >= 0 or e["type"] == 1:
        o["id"] = e["id"]
    put(o, "phase", e["phase"], real)
    put(o, "base_signal", e["base"], lambda v: BASE[v])
    put(o, "semantic_keywords", e["sem"])
    if bt == 3 and not lib:
        if e["type"] == 0:
            o["wavelet_stream"] = b64(e["wb"])
        if e["kfs"]:
            o["keyframes"] = [kfj(k) for k in e["kfs"]]
    else:
        o["keyframes"] = [kfj(k) for k in e["kfs"]]
    return o


def bandj(b):
    o = {"band_type": BAND[b["type"]], "lower_frequency_limit": b["lo"], "upper_frequency_limit": b["up"],
         "effects": [fxj(e, b["type"]) for e in b["fx"]]}
    put(o, "priority", b["prio"])
    put(o, "curve_type", b["curve"], lambda v: CURVE[v])
    if b["type"] == 3:
        put(o, "block_length", b["blk"])
    return o


def chanj(c):
    o = {"id": c["id"], "description": c["desc"], "gain": real(c["gain"]), "mixing_coefficient": real(c["mix"]),
         "body_part_mask": mask(c["mask"]), "bands": [bandj(b) for b in c["bands"]]}
    put(o, "priority", c["prio"])
    put(o, "reference_device_id", c["ref"])
    put(o, "frequency_sampling", c["fs"])
    put(o, "sample_count", c["sc"])
    put(o, "direction", c["dir"], vecj)
    put(o, "actuator_resolution", c["res"], vecj)
    put(o, "body_part_target", c["bpt"], lambda v: [BPT_INV[x] for x in v])
    put(o, "actuator_target", c["act"], lambda v: [vecj(x) for x in v])
    if c["vert"]:
        o["vertices"] = list(c["vert"])
    return o


def devj(d):
    o = {"id": d["id"], "name": d["name"]}
    put(o, "body_part_mask", d["mask"], mask)
    for k, n in DEV:
        put(o, n, d[k], real)
    put(o, "type", d["type"], lambda v: ACT[v])
    return o


def percj(p):
    o = {"id": p["id"], "avatar_id": p["avatar"], "description": p["desc"], "perception_modality": MOD[p["mod"]],
         "reference_devices": [devj(d) for d in p["dev"]], "effect_library": [fxj(e, 2, True) for e in p["lib"]],
         "channels": [chanj(c) for c in p["chans"]]}
    put(o, "priority", p["prio"])
    put(o, "unit_exponent", p["ue"])
    put(o, "perception_unit_exponent", p["pue"])
    put(o, "effect_semantic_scheme", p["scheme"])
    return o


def avj(a):
    o = {"id": a["id"], "lod": a["lod"], "type": AVATAR[a["type"]]}
    put(o, "mesh", a["mesh"])
    return o


def syncj(s):
    o = {"timestamp": s["t"]}
    put(o, "timescale", s["ts"])
    return o


def tree(h):
    return {"version": h["version"], "profile": h["profile"], "level": h["level"], "date": h["date"], "description": h["desc"],
            "timescale": h["ts"][0] if h["ts"] else "none", "avatars": [avj(a) for a in h["avatars"]],
            "perceptions": [percj(p) for p in h["percs"]], "syncs": [syncj(s) for s in h["syncs"]]}


def text(t, rng=None):
    """JSON text of a tree; with rng, member order and white space vary"""
    def ws():
        return rng.choice(["", "", "", " ", "\n", "\t "]) if rng else ""

    def go(x):
        if isinstance(x, dict):
            ks = list(x)
            if rng:
                rng.shuffle(ks)
            return "{" + ",".join(ws() + json.dumps(k) + ws() + ":" + ws() + go(x[k]) for k in ks) + ws() + "}"
        if isinstance(x, list):
            return "[" + ",".join(ws() + go(y) + ws() for y in x) + "]"
        if isinstance(x, Num):
            if rng and float(x).is_integer() and abs(x) < 1e9 and rng.random() < .5:
                return str(int(x))
            return repr(float(x))
        if isinstance(x, str) and rng and rng.random() < .3:
            return json.dumps(x, ensure_ascii=False)
        return json.dumps(x)
    return ws() + go(t) + ws()


# ------------------------------------------------------------------ JSON text -> canonical experience
class NotHjif(Exception):
    pass


def need(o, k, t):
    if k not in o:
        raise NotHjif("missing " + k)
    return chk(o[k], t, k)


def chk(v, t, k=""):
    ok = {"i": isinstance(v, int) and not isinstance(v, bool), "n": isinstance(v, (int, float)) and not isinstance(v, bool),
          "s": isinstance(v, str), "a": isinstance(v, list), "o": isinstance(v, dict)}[t]
    if not ok:
        raise NotHjif("type of " + k)
    return v


def opt(o, k, t, f=lambda v: v):
    return [f(chk(o[k], t, k))] if k in o else []


def name(tab):
    def f(v):
        if v not in tab:
            raise NotHjif("name " + v)
        return tab.index(v) if isinstance(tab, list) else tab[v]
    return f


def umask(v):
    return [(v >> 16) & 0xFFFF, v & 0xFFFF]


def uvec(v):
    return [need(v, k, "i") for k in "XYZ"]


def only(o, keys):
    for k in o:
        if k not in keys:
            raise NotHjif("unknown member " + k)


def ufx(o, lib):
    chk(o, "o")
    only(o, {"effect_type", "position", "id", "phase", "base_signal", "semantic_keywords", "keyframes", "wavelet_stream"})
    e = {"id": o.get("id", -1), "pos": need(o, "position", "i"), "phase": opt(o, "phase", "n", sc), "sem": opt(o, "semantic_keywords", "s", safe),
         "base": opt(o, "base_signal", "s", name(BASE)), "type": name(FX)(need(o, "effect_type", "s")), "kfs": [], "tl": [], "ws": [],
         "wb": unb64(o["wavelet_stream"]) if "wavelet_stream" in o else []}
    for k in o.get("keyframes", []):
        only(k, {"relative_position", "amplitude_modulation", "frequency_modulation"})
        e["kfs"].append({"p": opt(k, "relative_position", "i"), "a": opt(k, "amplitude_modulation", "n", sc),
                         "f": opt(k, "frequency_modulation", "i")})
    if lib:
        need(o, "id", "i")
    return e


def uband(o):
    only(o, {"band_type", "priority", "curve_type", "block_length", "lower_frequency_limit", "upper_frequency_limit", "effects"})
    return {"type": name(BAND)(need(o, "band_type", "s")), "curve": opt(o, "curve_type", "s", name(CURVE)), "blk": opt(o, "block_length", "i"),
            "lo": need(o, "lower_frequency_limit", "i"), "up": need(o, "upper_frequency_limit", "i"), "prio": opt(o, "priority", "i"),
            "fx": [ufx(e, False) for e in need(o, "effects", "a")]}


def uchan(o):
    only(o, {"id", "description", "gain", "mixing_coefficient", "body_part_mask", "priority", "reference_device_id", "frequency_sampling",
             "sample_count", "direction", "actuator_resolution", "body_part_target", "actuator_target", "vertices", "bands"})
    return {"id": need(o, "id", "i"), "desc": safe(need(o, "description", "s")), "prio": opt(o, "priority", "i"), "gain": sc(need(o, "gain", "n")),
            "mix": sc(need(o, "mixing_coefficient", "n")), "mask": umask(need(o, "body_part_mask", "i")), "ref": opt(o, "reference_device_id", "i"),
            "fs": opt(o, "frequency_sampling", "i"), "sc": opt(o, "sample_count", "i"), "dir": opt(o, "direction", "o", uvec),
            "res": opt(o, "actuator_resolution", "o", uvec), "bpt": opt(o, "body_part_target", "a", lambda v: [name(BPT)(x) for x in v]),
            "act": opt(o, "actuator_target", "a", lambda v: [uvec(x) for x in v]), "vert": o.get("vertices", []),
            "bands": [uband(b) for b in need(o, "bands", "a")]}


def udev(o):
    only(o, {"id", "name", "body_part_mask", "type"} | {n for _, n in DEV})
    d = {"id": need(o, "id", "i"), "name": safe(need(o, "name", "s")), "mask": opt(o, "body_part_mask", "i", umask)}
    for k, n in DEV:
        d[k] = opt(o, n, "n", sc)
    d["type"] = opt(o, "type", "s", name(ACT))
    return d


def uperc(o):
    only(o, {"id", "avatar_id", "description", "perception_modality", "priority", "unit_exponent", "perception_unit_exponent",
             "reference_devices", "effect_library", "effect_semantic_scheme", "channels"})
    m = need(o, "perception_modality", "s")
    return {"id": need(o, "id", "i"), "avatar": need(o, "avatar_id", "i"), "desc": safe(need(o, "description", "s")), "prio": opt(o, "priority", "i"),
            "scheme": opt(o, "effect_semantic_scheme", "s", safe), "mod": MOD_ALIAS[m] if m in MOD_ALIAS else name(MOD)(m),
            "ue": opt(o, "unit_exponent", "i"), "pue": opt(o, "perception_unit_exponent", "i"),
            "dev": [udev(d) for d in o.get("reference_devices", [])], "lib": [ufx(e, True) for e in need(o, "effect_library", "a")],
            "chans": [uchan(c) for c in need(o, "channels", "a")]}


def parse(t):
    """text (a str whose characters are the bytes of the file) -> canonical experience; raises NotHjif"""
    try:
        o = json.loads(t.encode("latin-1").decode("utf-8", "surrogateescape"))
    except ValueError as e:
        raise NotHjif("JSON: %s" % e)
    try:
        chk(o, "o")
        only(o, {"version", "profile", "level", "date", "description", "timescale", "avatars", "perceptions", "syncs"})
        avs = []
        for a in need(o, "avatars", "a"):
            only(a, {"id", "lod", "type", "mesh"})
            avs.append({"id": need(a, "id", "i"), "lod": need(a, "lod", "i"), "type": name(AVATAR)(need(a, "type", "s")),
                        "mesh": opt(a, "mesh", "s", safe)})
        sy = []
        for s in need(o, "syncs", "a"):
            only(s, {"timestamp", "timescale"})
            sy.append({"t": need(s, "timestamp", "i"), "ts": opt(s, "timescale", "i")})
        return {"version": safe(need(o, "version", "s")), "profile": safe(need(o, "profile", "s")), "level": need(o, "level", "i"),
                "date": safe(need(o, "date", "s")), "desc": safe(need(o, "description", "s")), "ts": [need(o, "timescale", "i")],
                "avatars": avs, "syncs": sy, "percs": [uperc(p) for p in need(o, "perceptions", "a")]}
    except (TypeError, AttributeError, ValueError, KeyError, IndexError) as e:
        raise NotHjif("shape: %r" % (e,))
