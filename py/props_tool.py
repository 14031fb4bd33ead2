"""The programs: what the synthesizer plays (Y01) and what the encoder does with its options (T03)."""
import copy
import json
import random
import gen
import props_files
import props_import
import props_json
import props_render
CHECKS = {}
EMPTY = props_render.EMPTY


def bands(r, ts, fs, wavelets):
    step = ts // fs
    out = []
    for _ in range(r.choice([0, 1, 1, 1, 2])):
        bt = r.choice([0, 1, 2, 2, 3] if wavelets else [0, 1, 2])
        lo = r.choice([0, 65])
        up = r.choice([lo + 10, 300])
        b = {"type": bt, "curve": [r.choice([1, 2])] if bt == 1 else [], "blk": [0] if bt == 0 else [], "lo": lo, "up": up, "prio": [], "fx": []}
        if bt == 3:
            n = r.choice([8, 16, 16, 32])
            b["up"] = r.choice([fs, fs // 2])
            b["blk"] = [n * ts // b["up"]]
        pos = r.choice([0, 0, 5, 17]) * step
        for _ in range(r.choice([1, 1, 2, 3])):
            if bt == 3:
                e = dict(EMPTY, pos=pos, kfs=[], wb=[r.randint(0, 255) for _ in range(r.randint(1, 10))])
                pos += b["blk"][0]
            else:
                e, ln = props_render.effect(r, bt, pos, step, lo, up, True)
                e["kfs"] = e["kfs"][:3]
                ln = (e["kfs"][-1]["p"] or [0])[0]
                if bt == 0:
                    ln += 22 * ts // 1000 + 1
                pos += -(-ln // step) * step + r.choice([1, 3, 20]) * step
            b["fx"].append(e)
        out.append(b)
    return out


def played(r, via):
    """An experience and how it is played."""
    ts, fs = r.choice([(1000, 1000), (1000, 1000), (1000, 500), (8000, 1000), (8000, 2000), (2000, 500)])
    percs = []
    for p in range(r.choice([0, 1, 1, 1, 2, 3]) if r.random() < .9 else 0):
        chans, lib = [], []
        for c in range(r.choice([1, 1, 2, 3])):
            ch = {"id": 10 * p + c, "desc": "c%d" % c, "prio": [], "gain": r.choice([10000, 10000, 5000, 20000, r.randint(100, 10000)]), "mix": 10000, "mask": [0, r.choice([0, 1, 5])],
                  "ref": [], "fs": [], "sc": [], "dir": [], "res": [], "bpt": [], "act": [], "vert": [], "bands": bands(r, ts, fs, via != "mihs" or ts == 1000)}
            if r.random() < .3:
                ch["fs"] = [r.choice([1000, 500, 8000])]
                if r.random() < .1:
                    ch["fs"], ch["sc"] = [], [r.randint(0, 100)]
                elif r.random() < .8:
                    ch["sc"] = [r.randint(0, 120) * ch["fs"][0] // r.choice([500, 1000])]
            chans.append(ch)
        if r.random() < .3:            # effects that are played twice come from the library
            for ch in chans:
                for b in ch["bands"]:
                    for k, e in enumerate(b["fx"]):
                        if b["type"] != 3 and r.random() < .6:
                            lib.append(dict(e, id=len(lib) + 1, pos=0))
                            b["fx"][k] = dict(EMPTY, pos=e["pos"], type=1, id=len(lib), kfs=[])
        percs.append({"id": p, "avatar": 0, "desc": "p", "prio": [], "scheme": [], "mod": r.choice([0, 2, 4]), "ue": [], "pue": r.choice([[], [], [0], [-1], [1]]),
                      "dev": [], "lib": lib, "chans": chans})
    h = {"version": "2023", "profile": "Main", "level": 2, "date": "2024-01-01", "desc": "d", "ts": [ts] if ts != 1000 or r.random() < .7 else [],
         "avatars": [], "syncs": [], "percs": percs}
    ids = iter(range(100, 10000))
    for p in percs:
        for ch in p["chans"]:
            for b in ch["bands"]:
                for e in b["fx"]:
                    if e["type"] == 0:
                        e["id"] = next(ids)
    if via == "hjif":
        t = h["ts"]
        h = props_json.tidy(h, r)
        h["ts"] = t
        for p in h["percs"]:
            for b in [b for ch in p["chans"] for b in ch["bands"]]:
                if b["type"] == 3:
                    b["blk"] = [r.choice([16, 32, 64])]
                for k, e in enumerate(b["fx"]):
                    e["kfs"] = [x for x in e["kfs"] if x["p"]]
                    if b["type"] == 3:
                        e["pos"] = b["fx"][0]["pos"] + k * b["blk"][0]
    elif via == "mihs":
        h["ts"] = [ts]
    pad = r.choice([0, 0, 0, 10, 20, 4])
    return h, ts, fs, pad


def y01(c):
    r = c.rng
    exe = c.tools()
    sc, evs = [], []
    for _ in range(1200 if c.thorough else 260):
        via = r.choice(["lib", "hjif", "hjif", "mihs"])
        h, ts, fs, pad = played(r, via)
        if sum(len(p["chans"]) for p in h["percs"]) > 5:
            continue
        name = r.choice(["out.wav", "played", "x.y.wav"]) if via != "lib" else "out.wav"
        ohm = via != "lib" and r.random() < .25
        w = [[r.choice(["-f", "--file"]), "@in"]]
        if via != "lib":
            if name != "out.wav" or r.random() < .6:
                w.append([r.choice(["-o", "--output"]), "@out"])
            w.append([r.choice(["-fs", "--sampling_frequency"]), str(fs)])
            if pad or r.random() < .3:
                w.append(["--pad", str(pad)])
            if via == "mihs":
                w.append([r.choice(["-b", "--binary"])])
            if ohm:
                w.append(["--generate_ohm"])
            r.shuffle(w)
        o = {"op": "synth", "exp": h, "via": via, "fs": fs, "pad": pad, "dur": r.choice([10, 50, 128]), "exe": exe["synthesizer"], "name": name,
             "words": [x for y in w for x in y]}
        sc.append([o])
        spoil = r.choice(["junk", "missing", "nodir"]) if via != "lib" and "@out" in o["words"] and r.random() < .06 else ""
        o["spoil"] = spoil
        made = ([] if via == "lib" else ["in." + via]) + [name] + ([name.rsplit(".", 1)[0] + ".ohm"] if ohm else [])
        evs.append({"k": "synth", "via": via, "fs": fs, "pad": pad, "ohm": int(ohm), "spoil": spoil, "names": "".join(x + " " for x in sorted(made))})
    c.sample(sc[-1], 1)

    def ev(i, x):
        if x["end"] != "ok":
            return [{"end": x["end"]}]
        o = x["out"][0]
        for p in o["exp"]["percs"]:
            for ch in p["chans"]:
                for b in ch["bands"]:
                    for e in b["fx"]:
                        e["ws"] = [max(-50000, min(50000, v)) for v in e["ws"]]
                        e["wb"] = []
        return [dict(evs[i], end="ok", o=o)]
    c.decide("TraceTools", sc, ev, timeout_s=20)


CHECKS["Y01"] = y01


def wave_file(r):
    """A WAV file in hexadecimal."""
    nc, rate, n = r.choice([1, 1, 2]), r.choice([1000, 8000]), r.choice([0, 1, 2, 5, 200, 1500])
    d = b""
    v = [0] * nc
    for _ in range(n):
        for k in range(nc):
            v[k] = max(-32768, min(32767, v[k] + r.randint(-3000, 3000)))
            d += v[k].to_bytes(2, "little", signed=True)
    u = lambda x, k: x.to_bytes(k, "little")
    return (b"RIFF" + u(36 + len(d), 4) + b"WAVEfmt " + u(16, 4) + u(1, 2) + u(nc, 2) + u(rate, 4) + u(rate * nc * 2, 4) + u(nc * 2, 2) + u(16, 2)
            + b"data" + u(len(d), 4) + d).hex(), nc


def ahap(r):
    return json.dumps({"Version": 1, "Pattern": props_import.doc(r, props_import.pattern(r, 1000), 1000)})


def settings(r, ext):
    c = {"b": int(r.random() < .5), "r": int(r.random() < .4), "l": int(r.random() < .4), "dur": r.choice([None, None, 10, 64, 1000]), "ts": r.choice([None, None, 8000, 500, 1000]),
         "kb": None, "bu": None, "bl": None, "cf": None, "w": 1, "v": 1}
    if ext == "wav":
        c.update(kb=r.choice([None, None, 8, 64]), bu=r.choice([None, 5, 40]), bl=r.choice([None, 64, 256]), cf=r.choice([None, "50", "0", "120.5"]), w=r.choice([1, 1, 0]), v=r.choice([1, 1, 0]))
    return c


def words(r, c, name):
    w = [[r.choice(["-f", "--file"]), "@in"]]
    if name:
        w.append([r.choice(["-o", "--output"]), "@out"])
    for k, (s, l) in {"b": ("-b", "--binary"), "r": ("-r", "--refactor"), "l": ("-l", "--linearize")}.items():
        if c[k]:
            w.append([r.choice([s, l])])
    for k, o in {"dur": "--packet_duration", "ts": "-ts", "kb": "-kb", "bu": "-bu", "bl": "-bl", "cf": "-cf"}.items():
        if c[k] is not None:
            w.append([o, str(c[k])])
    if not c["w"]:
        w.append(["--disable-wavelet"])
    if not c["v"]:
        w.append(["--disable-vectorial"])
    r.shuffle(w)
    return [x for y in w for x in y]


def combo(c):
    f = lambda k, d: str(c[k]) if c[k] is not None else d
    s = {"sdur": f("dur", "128"), "sts": f("ts", "1000"), "skb": f("kb", ""), "sbu": f("bu", "16"), "sbl": f("bl", "1024"), "scf": f("cf", "72.5")}
    return dict(s, b=c["b"], r=c["r"], l=c["l"], w=c["w"], v=c["v"], dur=int(s["sdur"]), ts=int(s["sts"]), kb=int(s["skb"] or 0), bu=int(s["sbu"]), bl=int(s["sbl"]),
                cf=round(float(s["scf"]) * 100))


def repeated(r, h):
    """The same effects again, and effects from the library, so that refactoring and linearising have something to do."""
    for p in h["percs"]:
        for ch in p["chans"]:
            for b in ch["bands"]:
                if b["type"] != 3 and b["fx"] and r.random() < .7:
                    e = b["fx"][-1]
                    end = e["pos"] + (e["kfs"][-1]["p"][0] if e["kfs"] and e["kfs"][-1]["p"] else 0) + 100
                    b["fx"].append(dict(copy.deepcopy(e), pos=end))
    return h


def t03(c):
    r = c.rng
    exe = c.tools()["encoder"]
    sc, evs = [], []
    for _ in range(500 if c.thorough else 110):
        ext = r.choice(["hjif", "hjif", "ahap", "ivs", "wav", "wav", "ohm", "ohm", "json", "xml", "bin"])
        kind = "unknown" if ext == "bin" else "known"
        files = [{"name": "in." + ext}]
        bad = r.random() < .08
        if bad:
            files[0]["text"] = r.choice(["", "{", "<x>", "nothing of the kind"])
        elif ext == "hjif":
            files[0]["exp"] = repeated(r, props_files.experience(r))
        elif ext in ("ahap", "json"):
            files[0]["text"] = ahap(r)
        elif ext in ("ivs", "xml"):
            files[0]["text"] = props_import.ivs_text(r)
        elif ext == "wav":
            files[0]["hex"] = wave_file(r)[0]
        elif ext == "ohm":
            els = []
            for k in range(r.choice([0, 1, 1, 2, 3])):
                x = r.choice(["ahap", "ivs", "wav", "xml", "json"])
                n, body = 1, {}
                if x in ("ahap", "json"):
                    body = {"text": ahap(r)}
                elif x == "wav":
                    hx, n = wave_file(r)
                    body = {"hex": hx}
                else:
                    body = {"text": props_import.ivs_text(r)}
                if r.random() < .12:
                    body = {"text": r.choice(["", "{", "<x>", "nothing of the kind", '{"Pattern": 1}'])}
                name = "e%d.%s" % (k, x)
                if r.random() < .95:
                    files.append(dict(body, name=name))
                els.append({"name": name, "desc": r.choice(["Vibration", "Force", "Other", "Stiffness"]), "n": n if r.random() < .9 else r.choice([0, n + 1])})
            files[0]["ohm"] = els
        else:
            files[0]["text"] = "x"
        runs, combos = [], []
        for _ in range(3):
            s = settings(r, ext)
            name = r.choice(["made.hjif", "made.hmpg", "made", ""])
            w = words(r, s, name)
            z = r.random()
            if z < .04:
                w += [r.choice(["-h", "--help"])]
            elif z < .08:
                w = [x if x != "@in" else "@none" for x in w]
            runs.append({"words": w, "name": name or "out.x"})
            combos.append(combo(s))
        sc.append([{"op": "encode", "exe": exe, "ext": ext, "files": files, "runs": runs, "combos": combos if kind == "known" else []}])
        evs.append({"k": "encode", "ext": ext, "kind": kind, "runs": runs, "combos": combos})
    c.sample(sc[-1], 1)

    def ev(i, x):
        if x["end"] != "ok":
            return [{"end": x["end"]}]
        o = x["out"][0]
        return [dict(evs[i], end="ok", o=o["runs"], lib=o["lib"])]
    c.decide("TraceTools", sc, ev, timeout_s=30)


CHECKS["T03"] = t03
