"""Properties of HJIF, the readable interchange format."""
import copy, json
import author, gen, hjif

URN = "urn:mpeg:mpegi:haptics:effectsemantic:2023"
KEYWORDS = ["UX/Click", "Texture/Sand", "Music/Undefined", "UX/Confirmatioon", "Vehicle/RoadBump"]
ALL_KEYWORDS = """UX/Undefined UX/Click UX/DoubleClick UX/Success UX/Error UX/Alarm
UX/Confirmatioon UX/Wrong UX/Ring UX/Message Avatar/Undefined Avatar/Jumping
Avatar/Fall Avatar/Crawl Avatar/Swim Avatar/Collision Avatar/Grab Avatar/Touch
Avatar/Swip Avatar/Footstep SpecialFX/Undefined SpecialFX/Washout SpecialFX/Noise WeaponCombat/Undefined
WeaponCombat/Blade WeaponCombat/Hit WeaponCombat/HandThrown WeaponCombat/ElasticPropulsion WeaponCombat/Pneumatic WeaponCombat/Handgun
WeaponCombat/Rifle WeaponCombat/Shotgun WeaponCombat/Gun WeaponCombat/Machinegun WeaponCombat/Taser WeaponCombat/ElectricShock
WeaponCombat/Mine WeaponCombat/Missile WeaponCombat/Grenade WeaponCombat/Blast Ambient/Undefined Ambient/Wind
Ambient/Heat Ambient/Cold Ambient/Rain Ambient/Waterfall Ambient/WaterDrop Ambient/ElectricBuzz
Ambient/Ignition Ambient/Cracks Ambient/Earthquack Ambient/Sparks Ambient/Thunderbolt Texture/Undefined
Texture/Rock Texture/Gravel Texture/Sand Texture/Wood Texture/Metal Texture/Plastic
Vehicle/Undefined Vehicle/Engine Vehicle/Doors Vehicle/Brake Vehicle/MechanicalContraption Vehicle/Drift
Vehicle/RoadFriction Vehicle/RoadBump Vehicle/Tires Vehicle/AirFriction Music/Undefined Music/HardMaterial
Music/BouncyMaterial Music/Pucking Music/Bowing Music/Striking Music/BrassInstrument Music/WoodWindInstrument""".split()
UNIT = [[127, 0, 0], [0, -127, 0], [0, 0, 127], [90, 90, 0], [-73, 73, 74], [0, 126, 0], [0, 128 - 1, 12], [89, 90, 3]]


def codes(s):
    return [ord(ch) for ch in s]


def dress(h):
    """adds the characters of the strings the conformance rules look into"""
    h = dict(h, vc=codes(h["version"]), dc=codes(h["date"]))
    h["percs"] = [dict(p, schc=codes(p["scheme"][0]) if p["scheme"] else []) for p in h["percs"]]
    return h


def tidy(h, r):
    """turns a generated experience into a conformant one"""
    h = copy.deepcopy(h)
    h["version"] = r.choice(["2023", "2024", "2023-1", "2025-9"])
    h["date"] = r.choice(["2023-01-01", "2024-12-31T23:59:59.999Z", "1999"])
    simple = h["profile"] == "Simple Parametric"
    h["ts"] = [1000] if simple else [r.choice([1000, 48000, 1, 8000])]
    h["syncs"] = [{"t": r.randint(0, 10 ** 6), "ts": r.choice([[], [r.randint(1, 96000)]])} for _ in range(r.randint(0, 3))]
    for a in h["avatars"]:
        if a["mesh"]:
            a["mesh"] = [a["mesh"][0] or "m.obj"] if r.random() < .8 else []
    for p in h["percs"]:
        if simple and h["level"] == 1:
            p["mod"] = r.choice([6, 9, 10, 11])
        if r.random() < .3:
            p["scheme"] = [r.choice([URN, "urn:x-me:s1", "URN:0a:!"])]
        sem = KEYWORDS if not p["scheme"] or p["scheme"][0] == URN else KEYWORDS + ["anything", "", "caf\u00e9"]
        p["avatar"] = r.choice([0] + [a["id"] for a in h["avatars"]])
        for d in p["dev"]:
            f = sorted(v[0] for v in (d["minF"], d["resF"], d["maxF"]) if v)
            for k in ("minF", "resF", "maxF"):
                if d[k]:
                    d[k] = [f.pop(0)]
        for k, c in enumerate(p["chans"]):
            c["id"] = c["id"] * 7 + k if k and any(c["id"] == x["id"] for x in p["chans"][:k]) else c["id"]
            if c["dir"]:
                c["dir"] = [r.choice(UNIT)]
            if c["res"]:
                c["res"] = [[abs(max(v, -127)) for v in c["res"][0]]]
                c["act"] = [[[r.randint(0, m) for m in c["res"][0]] for _ in c["act"][0]]]
            elif r.random() < .2:
                c["bpt"] = [[r.choice(gen.ALL_BPT) for _ in range(r.randint(0, 4))]]
            if simple:
                c["bands"] = [b for b in c["bands"] if b["type"] != 3]
            for b in c["bands"]:
                if b["type"] == 3:
                    b["blk"] = [2 ** r.randint(0, 12)]
                b["fx"] = [e for e in b["fx"] if not (simple and e["type"] == 2)]
                for e in b["fx"]:
                    e["tl"] = []
                    if r.random() < .2:
                        e["sem"] = [r.choice(sem)]
                    if e["kfs"] and r.random() < .1:
                        e["kfs"].append({"p": [], "a": r.choice([[], [5000]]), "f": []})
                if r.random() < .3:
                    b["prio"] = [r.randint(-3, 300)]
            if r.random() < .3:
                c["prio"] = [r.randint(-3, 300)]
        if r.random() < .3:
            p["prio"] = [r.randint(-3, 300)]
    return h


SIZES = [{}, {"max_perc": 1, "max_chan": 1, "max_band": 2}, {"max_perc": 2, "max_chan": 2, "max_band": 2, "max_fx": 3}]


def valid(r, k=0, **kw):
    return tidy(gen.D(r, **dict(SIZES[k % 3], **kw)).experience(), r)


def name_books(r):
    """experiences that use every name of the format"""
    fx = {"id": -1, "pos": 0, "phase": [], "sem": [], "base": [], "type": 0, "kfs": [{"p": [0], "a": [5000], "f": [100]}], "tl": [], "ws": [],
          "wb": []}
    out = []
    for mod in range(14):
        h = valid(r, 1, no_empty=True)
        h.update(profile="Main")
        p = h["percs"][0]
        p.update(mod=mod, scheme=[])
        ch = p["chans"][0]
        ch["bpt"] = [gen.ALL_BPT[mod * 3:mod * 3 + 3] + gen.ALL_BPT[-(mod + 1):]]
        kw = [k for i, k in enumerate(ALL_KEYWORDS) if i % 14 == mod]
        ch["bands"] = [dict(some_band(r, type=bt, curve=[mod % 6] if bt == 1 else []),
                            fx=[dict(fx, pos=10 * i, sem=[k], base=[(mod + i) % 5] if bt != 1 else []) for i, k in enumerate(kw)])
                       for bt in (0, 1, 2)]
        out.append(h)
    return out


# ------------------------------------------------------------------ J01 saving and loading
def _save_ev(i, x):
    o = x["out"]
    if x["end"] != "ok" or len(o) < 2:
        return [{"end": x["end"] if x["end"] != "ok" else "short"}]
    raw = unsafe(o[1]["text"])
    try:
        t = {"err": "", "v": dress(hjif.parse(raw))}
    except hjif.NotHjif as e:
        t = {"err": str(e)[:100], "v": 0}
    return [{"end": "ok", "k": "save", "x": dress(o[0]), "t": t, "r": o[1]["r"], "h": o[1]["h"], "same": o[1]["same"]}]


def unsafe(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\":
            out.append(chr(int(s[i + 2:i + 4], 16)))
            i += 4
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def j01(c):
    r = c.rng
    sc, names = [], {}
    for e in author.experiences(c, dict(author.BASE, partial=True, kinds=[0, 1]), limit=None if c.thorough else 1500):
        e["date"] = "2024-05-05"
        sc.append(e)
    for k in range(3000 if c.thorough else 400):
        sc.append(valid(r, k))
    for k in range(60 if not c.thorough else 600):      # as other parts of the software leave them
        e = valid(r, k)
        w = r.randint(0, 3)
        if w == 0:
            e["ts"] = []
        elif w == 1:
            e["version"] = r.choice(["", "100", "RM1", "2022", "2023-0", "20233", "2023-1a"])
        elif w == 2:
            e["date"] = r.choice(["", "today", "12-34-567"])
        else:
            for p in e["percs"]:
                for ch in p["chans"]:
                    for b in ch["bands"]:
                        if b["type"] == 3:
                            for f in b["fx"]:
                                f["wb"] = [0] * r.randint(0, 3)
        sc.append(e)
    sc += name_books(r)
    e = valid(r, 1)
    k = {"p": [0], "a": [5000], "f": [100]}
    fx = {"id": -1, "pos": 0, "phase": [], "sem": [], "base": [], "type": 0, "kfs": [k], "tl": [], "ws": [], "wb": []}
    e.update(profile="Main", syncs=[], avatars=[])
    e["percs"] = [{"id": 0, "avatar": 0, "desc": "", "prio": [], "scheme": [], "mod": 6, "ue": [], "pue": [], "dev": [], "lib": [], "chans": [
        {"id": 0, "desc": "", "prio": [], "gain": 10000, "mix": 10000, "mask": [0, 0], "ref": [], "fs": [], "sc": [], "dir": [], "res": [],
         "bpt": [], "act": [], "vert": [], "bands": [{"type": 2, "curve": [], "blk": [0], "lo": 0, "up": 1000, "prio": [],
                                                     "fx": [dict(fx, type=2, kfs=[], tl=[fx])]}]}]}]
    names[len(sc)] = "composite-timeline"
    sc.append(e)
    c.sample(sc[-2], 1)
    c.decide("TraceHjif", [[{"op": "build", "exp": e}, {"op": "json_rt"}] for e in sc], _save_ev, names=names)


# ------------------------------------------------------------------ J02 the conformance gate
WRONG = {"i": ["7", 1.5, None, [], True, 2 ** 40], "s": [7, None, {}, True], "n": ["1", None, [], True], "u": [-1, "5", 1.5, None],
         "a": [{}, None, "x", 3], "o": [[], 5, "v", None, {"X": 1, "Y": 2}, {"X": 300, "Y": 0, "Z": 0}, {"X": "1", "Y": 0, "Z": 0}],
         "e": [7, None, "Nope", "", "basis", "None"], "x": ["7", 1.5, None, 128, -129]}
MEMBERS = {
    "top": {"version": "s", "profile": "s", "level": "u", "date": "s", "description": "s", "timescale": "u", "avatars": "a", "perceptions": "a",
            "syncs": "a"},
    "avatar": {"id": "i", "lod": "i", "type": "e", "mesh": "s"},
    "sync": {"timestamp": "i", "timescale": "u"},
    "perc": {"id": "i", "avatar_id": "i", "description": "s", "perception_modality": "e", "priority": "i", "unit_exponent": "x",
             "perception_unit_exponent": "x", "reference_devices": "a", "effect_library": "a", "effect_semantic_scheme": "s", "channels": "a"},
    "dev": dict({"id": "i", "name": "s", "body_part_mask": "u", "type": "e"}, **{n: "n" for _, n in hjif.DEV}),
    "lib": {"effect_type": "e", "position": "i", "id": "i", "phase": "n", "base_signal": "e", "semantic_keywords": "s", "keyframes": "a"},
    "chan": {"id": "i", "description": "s", "gain": "n", "mixing_coefficient": "n", "body_part_mask": "u", "priority": "i",
             "reference_device_id": "i", "frequency_sampling": "u", "sample_count": "u", "direction": "o", "actuator_resolution": "o",
             "body_part_target": "a", "actuator_target": "a", "vertices": "a", "bands": "a"},
    "band": {"band_type": "e", "priority": "i", "curve_type": "e", "block_length": "i", "lower_frequency_limit": "i",
             "upper_frequency_limit": "i", "effects": "a"},
    "fx": {"effect_type": "e", "position": "i", "semantic_keywords": "s", "id": "i", "phase": "n", "base_signal": "e", "keyframes": "a",
           "wavelet_stream": "s"},
    "kf": {"relative_position": "i", "amplitude_modulation": "n", "frequency_modulation": "i"},
}
MEMBERS["libkf"] = MEMBERS["kf"]
SELF = [7, "x", None, [], True]


def places(t):
    """every element of a tree: (kind, path, container, index)"""
    out = [("avatar", [i + 1], t["avatars"], i) for i in range(len(t["avatars"]))]
    out += [("sync", [i + 1], t["syncs"], i) for i in range(len(t["syncs"]))]
    for i, p in enumerate(t["perceptions"]):
        out.append(("perc", [i + 1], t["perceptions"], i))
        out += [("dev", [i + 1, j + 1], p["reference_devices"], j) for j in range(len(p["reference_devices"]))]
        for j, e in enumerate(p["effect_library"]):
            out.append(("lib", [i + 1, j + 1], p["effect_library"], j))
            out += [("libkf", [i + 1, j + 1, k + 1], e["keyframes"], k) for k in range(len(e["keyframes"]))]
        for j, ch in enumerate(p["channels"]):
            out.append(("chan", [i + 1, j + 1], p["channels"], j))
            for m, key in (("bpt", "body_part_target"), ("act", "actuator_target"), ("vert", "vertices")):
                out += [(m, [i + 1, j + 1, k + 1], ch[key], k) for k in range(len(ch.get(key, [])))]
            for k, b in enumerate(ch["bands"]):
                out.append(("band", [i + 1, j + 1, k + 1], ch["bands"], k))
                for n, e in enumerate(b["effects"]):
                    out.append(("fx", [i + 1, j + 1, k + 1, n + 1], b["effects"], n))
                    out += [("kf", [i + 1, j + 1, k + 1, n + 1, q + 1], e["keyframes"], q) for q in range(len(e.get("keyframes", [])))]
    return out


def combos():
    """every way to spoil one member: (kind, member, how, value)"""
    out = []
    for k, ms in MEMBERS.items():
        if k != "top":
            out += [(k, "self", "type", v) for v in SELF]
        for m, ty in ms.items():
            out.append((k, m, "missing", None))
            out += [(k, m, "type", v) for v in WRONG[ty] + ([256, 257] if m == "level" else [])]
    out += [("bpt", "self", "type", v) for v in ("Nope", 7, "", None)] + [("act", "self", "type", v) for v in WRONG["o"]]
    return out + [("vert", "self", "type", v) for v in WRONG["i"]]


def spoil_as(r, t, ps, combo):
    kind, m, how, v = combo
    if kind == "top":
        path, el = [], t
    else:
        ps = [p for p in ps if p[0] == kind and (m == "self" or isinstance(p[2][p[3]], dict) and m in p[2][p[3]])]
        if not ps:
            return None
        _, path, cont, i = r.choice(ps)
        if m == "self":
            cont[i] = v
            return {"kind": kind, "path": path, "m": m, "how": how}
        el = cont[i]
    if how == "missing":
        el.pop(m)
    else:
        el[m] = v
    return {"kind": kind, "path": path, "m": m, "how": how}


def spoil(r, t, ps, kind=None):
    """spoils one member of tree t in place; returns the edit"""
    kinds = sorted({p[0] for p in ps}) + ["top"]
    kind = kind if kind in kinds else r.choice(kinds)
    if kind == "top":
        m = r.choice(list(MEMBERS["top"]))
        how = r.choice(["missing", "type"])
        if how == "missing":
            t.pop(m)
        else:
            t[m] = r.choice([v for v in WRONG[MEMBERS["top"][m]]] + ([256, 257] if m == "level" else []))
        return {"kind": "top", "path": [], "m": m, "how": how}
    _, path, cont, i = r.choice([p for p in ps if p[0] == kind])
    if kind == "bpt":
        cont[i] = r.choice(["Nope", 7, "", None])
        return {"kind": kind, "path": path, "m": "self", "how": "type"}
    if kind == "act":
        cont[i] = r.choice(WRONG["o"])
        return {"kind": kind, "path": path, "m": "self", "how": "type"}
    if kind == "vert":
        cont[i] = r.choice(WRONG["i"])
        return {"kind": kind, "path": path, "m": "self", "how": "type"}
    if r.random() < .15:
        cont[i] = r.choice(SELF)
        return {"kind": kind, "path": path, "m": "self", "how": "type"}
    el = cont[i]
    ms = [m for m in MEMBERS[kind] if m in el]
    if not ms:
        cont[i] = 7
        return {"kind": kind, "path": path, "m": "self", "how": "type"}
    m = r.choice(ms)
    how = r.choice(["missing", "type", "type"])
    if how == "missing":
        el.pop(m)
    else:
        el[m] = r.choice(WRONG[MEMBERS[kind][m]])
    return {"kind": kind, "path": path, "m": m, "how": how}


def all_of(h, what):
    ps = h["percs"]
    cs = [ch for p in ps for ch in p["chans"]]
    bs = [b for ch in cs for b in ch["bands"]]
    return {"percs": ps, "chans": cs, "bands": bs, "fx": [(b, e) for b in bs for e in b["fx"]], "dev": [d for p in ps for d in p["dev"]],
            "lib": [e for p in ps for e in p["lib"]]}[what]


def some_band(r, **kw):
    return dict({"type": 2, "curve": [], "blk": [0], "lo": 0, "up": 10, "prio": [], "fx": []}, **kw)


def breaks(h, r):
    """one change towards or over the edge of one rule; returns its name or None if it does not apply"""
    def pick(w):
        v = all_of(h, w)
        return r.choice(v) if v else None
    k = r.choice(["version", "profile", "level", "date", "ts", "avid", "avdup", "mesh", "pdup", "mod", "avref", "scheme", "cdup", "ref", "dir",
                  "bands", "res", "act", "curve", "blk", "lim", "wkf", "libref", "sem", "devdup", "devf", "libdup", "wsimple", "comp", "libcomp",
                  "nores", "chans", "none", "unsorted"])
    ch, b, fx, d, p = pick("chans"), pick("bands"), pick("fx"), pick("dev"), pick("percs")
    if k == "version":
        h["version"] = r.choice(["2022", "2023", "2023-0", "2023-9", "2023-10", "202", "20233", "", "2023-", "x2023", "2023 ", "9999-5", "0000"])
    elif k == "profile":
        h["profile"] = r.choice(["Main", "Simple Parametric", "main", "", "Simple", "Main "])
    elif k == "level":
        h["level"] = r.choice([0, 1, 2, 3, 255])
    elif k == "date":
        h["date"] = r.choice(["2023", "+2023-01-01", "202", "20-23", "no date", "about 1999", "12345", ""])
    elif k == "ts":
        h["ts"] = [r.choice([0, 1, 999, 1000, 1001, 48000, 48001, 96000])]
    elif k in ("avid", "avdup", "mesh"):
        if not h["avatars"]:
            return None
        a = r.choice(h["avatars"])
        if k == "avid":
            a["id"] = r.choice([0, 1, -1, 70000])
        elif k == "avdup":
            h["avatars"].append(dict(a, lod=a["lod"] + 1))
        else:
            a["mesh"] = [r.choice(["", "x", "#", "http://a/b?c#d", " "])]
    elif k == "pdup" and p:
        h["percs"].append(dict(copy.deepcopy(p), id=r.choice([p["id"], p["id"] + 1000])))
    elif k == "mod" and p:
        p["mod"] = r.randint(0, 13)
        h["level"] = 1
    elif k == "avref" and p:
        p["avatar"] = r.choice([0, -1, 77, 300] + [a["id"] for a in h["avatars"]])
    elif k == "scheme" and p:
        p["scheme"] = [r.choice(["", "urn:", "urn::a", "urn:a:", "urn:a:b", URN, "urx:a:b", "urn:-a:b", "urn:a_b:c", "urn:" + "a" * 32 + ":z",
                                 "urn:" + "a" * 33 + ":z", "xurn:a:b", "urn:a:b:c"])]
    elif k == "cdup" and p and p["chans"]:
        x = copy.deepcopy(r.choice(p["chans"]))
        x["id"] += r.choice([0, 0, 50000])
        p["chans"].append(x)
    elif k == "ref" and ch:
        ch["ref"] = [r.choice([0, 5, 255, 1000] + [q["id"] for q in all_of(h, "dev")])]
    elif k == "dir" and ch:
        ch["dir"] = [r.choice(UNIT + [[0, 0, 0], [125, 0, 0], [126, 0, 0], [0, 127, 17], [0, 127, 18], [127, 0, -18], [127, 127, 127], [-128, 0, 0],
                                      [0, 125, 12], [0, 125, 18], [-128, 3, 4], [-128, 0, 13]])]
    elif k == "bands" and ch:
        n = r.choice([6, 7, 8, 62, 63, 64])
        h["level"] = r.choice([1, 2])
        ch["bands"] = [some_band(r, up=q) for q in range(n)]
    elif k == "chans" and p and p["chans"]:
        h["level"] = r.choice([1, 2])
        x = copy.deepcopy(p["chans"][0])
        x.update(bands=[], vert=[])
        p["chans"] = [dict(x, id=q) for q in range(r.choice([126, 127, 128, 130]))]
    elif k == "res" and ch:
        ch["res"] = [r.choice([[-1, 0, 0], [0, -1, 0], [0, 0, -128], [0, 0, 0], [127, 127, 127]])]
        ch["act"] = r.choice([[], [[]], [[[0, 0, 0]]]])
    elif k == "act" and ch:
        ch["res"] = [[4, 5, 6]]
        ch["act"] = [[[1, 2, 3], r.choice([[4, 5, 6], [5, 0, 0], [0, 6, 0], [0, 0, 7], [-1, 0, 0], [0, -1, 0], [0, 0, -1]])]]
    elif k == "nores" and ch:
        ch["res"] = []
        ch["act"] = [[]] if r.random() < .5 else [[[0, 0, 0]]]
    elif k == "curve" and b:
        b["curve"] = [r.randint(0, 5)]
    elif k == "blk":
        w = [q for q in all_of(h, "bands") if q["type"] == 3]
        if not w:
            return None
        r.choice(w)["blk"] = [r.choice([0, 1, 2, 3, 5, 6, 1023, 1024, 1025, -1, -2, -8, 2 ** 30, 2 ** 31 - 1, -2 ** 31])]
    elif k == "lim" and b:
        b["lo"], b["up"] = r.choice([(0, 0), (1, 0), (10, 9), (10, 10), (-5, -5), (-4, -5), (65, 300)])
    elif k == "wkf":
        w = [e for q, e in all_of(h, "fx") if q["type"] == 3]
        if not w:
            return None
        r.choice(w)["kfs"] = [{"p": [0], "a": [1], "f": []}]
    elif k == "libref" and fx:
        fx[1].update(type=1, id=r.choice([0, 1, 59, 60, -1] + [e["id"] for e in all_of(h, "lib")]), kfs=[], wb=[])
    elif k == "sem" and fx:
        fx[1]["sem"] = [r.choice(KEYWORDS + ["", "UX", "ux/click", "UX/Click ", "Nothing", "UX/Confirmation"])]
    elif k == "devdup" and p and p["dev"]:
        x = copy.deepcopy(r.choice(p["dev"]))
        x["id"] += r.choice([0, 0, 1000])
        p["dev"].append(x)
    elif k == "devf" and d:
        for key in ("minF", "maxF", "resF"):
            d[key] = r.choice([[], [10000], [20000], [30000]])
    elif k == "libdup" and p and p["lib"]:
        x = copy.deepcopy(r.choice(p["lib"]))
        x["id"] += r.choice([0, 0, 1000])
        p["lib"].append(x)
    elif k == "wsimple":
        h["profile"], h["ts"] = "Simple Parametric", [1000]
    elif k == "comp" and fx:
        fx[1].update(type=2, kfs=[], wb=[])
    elif k == "libcomp" and p and p["lib"]:
        r.choice(p["lib"])["type"] = r.choice([1, 2])
    elif k == "unsorted" and b:
        r.shuffle(b["fx"])
    elif k != "none":
        return None
    return k


def edges(r):
    """both sides of every border of the rules, one at a time, on an experience that conforms otherwise"""
    def base(prof="Main", level=1, **kw):
        ch = {"id": 0, "desc": "", "prio": [], "gain": 10000, "mix": 10000, "mask": [0, 1], "ref": [], "fs": [], "sc": [], "dir": [],
              "res": [], "bpt": [], "act": [], "vert": [], "bands": []}
        p = {"id": 0, "avatar": 0, "desc": "", "prio": [], "scheme": [], "mod": 9, "ue": [], "pue": [], "dev": [], "lib": [], "chans": [ch]}
        return dict({"version": "2023", "profile": prof, "level": level, "date": "2023", "desc": "", "ts": [1000], "avatars": [], "syncs": [],
                     "percs": [p]}, **kw), p, ch
    profiles = ["Main", "Simple Parametric"]
    for prof in profiles:
        for level in (0, 1, 2, 3, 255):
            for mod in range(14) if level in (1, 2) else (9,):
                h, p, ch = base(prof, level)
                p["mod"] = mod
                yield h
        for ts in (0, 1, 999, 1000, 1001, 2000, 47999, 48000, 48001):
            yield base(prof, 2, ts=[ts])[0]
        for bt in (0, 1, 2, 3):
            h, p, ch = base(prof)
            ch["bands"] = [some_band(r, type=bt, blk=[16] if bt == 3 else [0], curve=[1] if bt == 1 else [])]
            yield h
    for level in (1, 2):
        for n in (126, 127, 128, 129, 130, 256):
            h, p, ch = base(level=level)
            p["chans"] = [dict(ch, id=q) for q in range(n)]
            yield h
        for n in (6, 7, 8, 9, 62, 63, 64, 65):
            h, p, ch = base(level=level)
            ch["bands"] = [some_band(r, up=q) for q in range(n)]
            yield h
    for res in ([0, 0, 0], [0, 4, 0], [3, 0, 5], [127, 127, 127], [1, 1, 1]):
        for axis in range(3):
            for v in sorted({-1, 0, 1, res[axis], min(res[axis] + 1, 127), max(res[axis] - 1, -128), 127, -128}):
                for place in (0, 1):
                    h, p, ch = base()
                    t = [0, 0, 0]
                    t[axis] = v
                    ch.update(res=[res], act=[[list(res), t] if place else [t, list(res)]])
                    yield h
    for axis in range(3):
        for v in (-128, -1, 0, 1, 127):
            h, p, ch = base()
            res = [2, 2, 2]
            res[axis] = v
            ch["res"] = [res]
            yield h
            h, p, ch = base()
            ch["dir"] = [[v if q == axis else 0 for q in range(3)]]
            yield h
    for n in range(0, 34):
        h, p, ch = base()
        ch["bands"] = [some_band(r, type=3, blk=[n])]
        yield h
    for lo in range(0, 3):
        for up in range(0, 3):
            h, p, ch = base()
            ch["bands"] = [some_band(r, lo=lo, up=up)]
            yield h
    for lows in ([], [10000], [20000]):
        for highs in ([], [10000], [20000]):
            for resos in ([], [5000], [10000], [15000], [20000], [25000]):
                h, p, ch = base()
                d = dict(gen.D(r).device(1), minF=lows, maxF=highs, resF=resos)
                p["dev"] = [d]
                yield h
    for what in ("chans", "dev", "lib", "percs", "avatars"):      # identifiers: all different, or any two of three the same
        for ids in ([1, 2, 3], [1, 1, 2], [1, 2, 1], [2, 1, 1], [1, 1, 1], [0, 1, 2], [2, 0, 1]):
            h, p, ch = base()
            d = gen.D(r)
            if what == "chans":
                p["chans"] = [dict(ch, id=i) for i in ids]
            elif what == "percs":
                h["percs"] = [dict(p, id=i) for i in ids]
            elif what == "dev":
                p["dev"] = [dict(d.device(1), id=i, minF=[], maxF=[], resF=[]) for i in ids]
            elif what == "lib":
                p["lib"] = [dict(d.libeffect(1), id=i) for i in ids]
            else:
                h["avatars"] = [{"id": i, "lod": 0, "type": 0, "mesh": []} for i in ids]
            yield h
    for avatars in ([], [1], [1, 2], [2, 1]):
        for a in (0, 1, 2, 3, -1):
            h, p, ch = base()
            h["avatars"] = [{"id": i, "lod": 0, "type": 0, "mesh": []} for i in avatars]
            p["avatar"] = a
            yield h


def _load_ev(meta):
    def ev(i, x):
        o = x["out"]
        if x["end"] != "ok" or not o:
            return [{"end": x["end"] if x["end"] != "ok" else "short"}]
        return [dict(meta[i], end="ok", k="load", r=o[0]["r"], h=o[0]["h"])]
    return ev


def esc(h):
    """the strings of an experience as the harness projects them"""
    if isinstance(h, dict):
        return {k: esc(v) for k, v in h.items()}
    if isinstance(h, list):
        return [esc(v) for v in h]
    return hjif.safe(h) if isinstance(h, str) else h


def single(h):
    """real numbers as single precision holds them"""
    q = lambda v: hjif.sc(v / hjif.SC)
    h = copy.deepcopy(h)
    for d in all_of(h, "dev"):
        for k, _ in hjif.DEV:
            d[k] = [q(v) for v in d[k]]
    for ch in all_of(h, "chans"):
        ch["gain"], ch["mix"] = q(ch["gain"]), q(ch["mix"])
    return h


NONE = {"kind": "none", "path": [], "m": "", "how": ""}


def j02(c):
    r = c.rng
    sc, meta = [], []

    def add(h, t, ed):
        x = esc(dress(single(h)))
        sc.append([{"op": "json_load", "text": hjif.text(t, r)}])
        meta.append({"x": x, "ed": ed})
    n = 12 if c.thorough else 1
    for k in range(300 * n):                # conformant, with every optional member the loader knows
        h = valid(r, k)
        for b, e in all_of(h, "fx"):
            if r.random() < .2 and e["type"] != 1:
                e["id"] = r.randint(0, 500)
            if r.random() < .2:
                e["phase"], e["base"] = [r.randint(0, 62831)], [r.randint(0, 4)]
        add(h, hjif.tree(h), NONE)
    m = 0
    for h in edges(r):
        add(h, hjif.tree(h), NONE)
        m += 1
    c.cov["borders_of_rules"] = m
    kinds = {}
    for k in range(700 * n):                # at or over the edge of one or two rules
        h = valid(r, k)
        done = [x for x in (breaks(h, r) for _ in range(r.choice([1, 1, 1, 2, 3]))) if x]
        for d in done:
            kinds[d] = kinds.get(d, 0) + 1
        add(h, hjif.tree(h), NONE)
    c.cov["rules_probed"] = kinds
    cs, todo = 0, combos()
    for combo in todo * (4 * n if c.thorough else 1):       # one member missing or wrong, every way
        for k in range(60):
            h = valid(r, k + 1, no_empty=True, modalities=[6, 9])
            for b, e in all_of(h, "fx"):
                if e["type"] == 0 and r.random() < .3:
                    e["phase"], e["base"] = [r.randint(0, 62831)], [r.randint(0, 4)]
            for e in all_of(h, "lib"):
                if r.random() < .3:
                    e["sem"] = ["UX/Ring"]
            t = hjif.tree(h)
            ed = spoil_as(r, t, places(t), combo)
            if ed:
                add(h, t, ed)
                cs += 1
                break
    c.cov["ways_to_spoil_a_member"] = len(todo)
    c.cov["members_spoiled"] = cs
    for h in name_books(r):
        add(h, hjif.tree(h), NONE)
    for alias, mod in hjif.MOD_ALIAS.items():
        h = valid(r, 1, no_empty=True)
        h["profile"] = "Main"
        h["percs"][0]["mod"] = mod
        t = hjif.tree(h)
        t["perceptions"][0]["perception_modality"] = alias
        add(h, t, NONE)
    c.sample(sc[-1], 1)
    c.decide("TraceHjif", sc, _load_ev(meta), label="files")
    junk(c, r, 600 * n)


def _junk_ev(i, x):
    o = x["out"]
    if x["end"] != "ok" or not o:
        return [{"end": x["end"] if x["end"] != "ok" else "short"}]
    e = {"end": "ok", "k": "junk", "r": o[0]["r"], "h": 0, "r2": o[0].get("r2", False), "same": o[0].get("same", False)}
    if o[0]["r"]:
        h = o[0]["h"]
        h = dict(h, version=unsafe(h["version"]), date=unsafe(h["date"]))
        h["percs"] = [dict(p, scheme=[unsafe(p["scheme"][0])] if p["scheme"] else []) for p in h["percs"]]
        e["h"] = esc(dress(h))
    return [e]


def mangle(r, s):
    k = r.randint(0, 6)
    if k == 0:
        return s[:r.randint(0, len(s))]
    if k == 1:
        i = r.randrange(len(s))
        return s[:i] + bytes([r.randrange(256)]) + s[i + 1:]
    if k == 2:
        i, j = sorted(r.sample(range(len(s) + 1), 2))
        return s[:i] + s[min(len(s), i + min(j - i, 40)):]
    if k == 3:
        i = r.randrange(len(s))
        return s[:i] + r.choice([b"{", b"}", b"[", b"]", b",", b'"', b"null", b"1e9", b"-", b"\\", b"\x00", b"0"]) + s[i:]
    if k == 4:
        return s + r.choice([b"x", b" ", b"}", b"{}", b"\x00"])
    if k == 5:
        i, j = sorted(r.sample(range(len(s) + 1), 2))
        return s[:j] + s[i:j] + s[j:]
    return r.choice([b"", b"{}", b"[]", b"null", b"7", b'"x"', b"{" * 50, b"[" * 200, b"\xff\xfe", b" ", b"{\"version\":1}"])


def junk(c, r, n):
    sc = []
    for k in range(n):
        h = valid(r, 1)
        t = hjif.tree(h)
        if k % 2:
            for _ in range(r.randint(1, 4)):
                try:
                    spoil(r, t, places(t))
                except (KeyError, TypeError, AttributeError, IndexError):
                    break
            s = hjif.text(t, r).encode("utf-8", "surrogatepass")
        else:
            s = mangle(r, hjif.text(t, r).encode("utf-8"))
        sc.append([{"op": "json_load", "hex": s.hex(), "again": 1}])
    c.decide("TraceHjif", sc, _junk_ev, label="any text")


CHECKS = {"J01": j01, "J02": j02}
