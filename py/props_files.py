"""Files and command line programs: histories of saving, loading and converting (T02)."""
import json, os
import props_json, props_stream, vlib
CHECKS = {}
FORMATS = ["hjif", "hmpg", "mihs", "ohm"]


def experience(r):
    """conformant in every format: in the domain of streams, with what the readable format asks for"""
    g = props_stream.fix_domain(r, props_stream.dom(r, max_perc=1, max_chan=2, max_band=2, no_ids=False, max_pos=300, max_len=60,
                                                    max_blk=[1, 8, 32], timescale=[1000], no_empty=True).experience())
    g["profile"] = "Main"
    h = props_json.tidy(g, r)
    h.update(syncs=[], ts=[1000], version="2023")
    for p, q in zip(h["percs"], g["percs"]):
        p.update(scheme=[], prio=q["prio"])
        for c, d in zip(p["chans"], q["chans"]):
            c["prio"] = d["prio"]
            for k, (b, e) in enumerate(zip(c["bands"], d["bands"])):
                c["bands"][k] = e
    return h


def references(c, exps, exe):
    """digests of the file of every experience in every format, of what it loads to, and of its conversion"""
    steps = []
    for x in range(len(exps)):
        for f in FORMATS:
            steps += [{"k": "save", "f": f, "x": x, "p": "a"}, {"k": "load", "f": f, "p": "a"}]
        steps += [{"k": "save", "f": "mihs", "x": x, "p": "b"}, {"k": "conv", "f": "mihs", "p": "b", "q": "c"}]
    o = c.run([[{"op": "files", "exps": exps, "exe": exe, "steps": steps}]])[0]
    if o["end"] != "ok":
        return None
    o = o["out"][0]
    ref = {f: {"file": [], "exp": []} for f in FORMATS + ["conv"]}
    k = 0
    for x in range(len(exps)):
        for f in FORMATS:
            ref[f]["file"].append(o[k]["d"][0])
            ref[f]["exp"].append(o[k + 1]["got"])
            if not (o[k]["ret"] == 1 and o[k + 1]["ret"] == 1):
                return None
            k += 2
        ref["conv"]["file"].append(o[k + 1]["d"][2])
        ref["conv"]["exp"].append(0)
        k += 2
    return ref


def setup(pre):
    out = []
    for p in sorted(pre):
        h = pre[p]
        if h["t"] in ("doc", "cut"):
            out.append({"k": "save", "f": h["f"], "x": h["x"], "p": p})
            if h["t"] == "cut":
                out.append({"k": "cut", "p": p, "n": 500})
        elif h["t"] == "junk":
            out.append({"k": "put", "p": p, "s": h["f"]})
    return out


def history(r, n):
    out = []
    held = {}
    for _ in range(n):
        k = r.choice(["save", "save", "load", "run", "put", "cut"])
        p = r.choice(["a", "b", "c", "a", "b", "c", "dir", "nodir", "full"])
        if k == "save":
            f = r.choice(FORMATS)
            out.append({"k": k, "f": f, "x": r.randint(0, 1), "p": p})
            if p in "abc":
                held[p] = f
        elif k == "load":
            if p == "full":
                p = "a"
            f = held.get(p) if r.random() < .6 else None
            out.append({"k": k, "f": f or r.choice(FORMATS), "p": p})
        elif k == "put" and p in "abc":
            held.pop(p, None)
            out.append({"k": k, "p": p, "s": r.choice(["", "{}", "[1", "x" * 300])})
        elif k == "cut" and held.get(p):
            out.append({"k": k, "p": p, "n": r.choice([300, 500, 700])})
            held.pop(p)
        elif k == "run":
            i = r.choice([q for q in "abc" if held.get(q) == "mihs"] or ["a", "nodir"])
            o = r.choice(["a", "b", "c", "full", "nodir", "dir"])
            a = [[r.choice(["-f", "--file"]), "@" + i], [r.choice(["-o", "--output"]), "@" + o]]
            r.shuffle(a)
            out.append({"k": k, "exe": "decoder", "args": a[0] + a[1] + (["-h"] if r.random() < .05 else [])})
            if o in "abc":
                held.pop(o, None)
    return out


def t02(c):
    r = c.rng
    exe = c.tools()
    while True:
        exps = [experience(r), experience(r)]
        if all(h["percs"] for h in exps):
            break
    ref = references(c, exps, exe)
    if ref is None:
        c.violation("{\"conformant experiences are saved and loaded in every format\"}", {"exps": exps})
        return
    p = os.path.join(c.wd, "params.json")
    json.dump({"xs": 2, "depth": 1 if c.thorough else 0}, open(p, "w"))
    rc, out = vlib.tlc("FilesMC", {"PARAMS": p}, c.wd, heap="4g", workers="4")
    if rc != 0 or "No error has been found" not in out:
        raise vlib.CheckError("FilesMC: " + "\n".join(x for x in out.splitlines() if not x.startswith('"TR'))[-2000:])
    trs = sorted({x for x in out.splitlines() if x.startswith('"TR')})
    c.cov["model_transitions"] = len(trs)
    trs = [json.loads(json.loads(x)[2:]) for x in trs]
    if not c.thorough:
        keep = [t for t in trs if t["pre"]["a"]["t"] == "doc" and t["pre"]["a"]["f"] == "mihs" and t["o"]["k"] == "run"]
        trs = keep[:200] + r.sample(trs, 900)
    hs = [setup(t["pre"]) + [t["o"]] for t in trs]
    hs += [history(r, r.randint(5, 15)) for _ in range(2000 if c.thorough else 250)]
    hs = [h for h in hs if h and not any(s["k"] == "cut" and s["p"] not in "abc" for s in h)]
    sc = [[{"op": "files", "exps": exps, "exe": exe, "steps": h}] for h in hs]
    c.sample(hs[-1], 1)

    def ev(i, x):
        if x["end"] != "ok":
            return [{"end": x["end"]}]
        return [{"end": "ok", "o": hs[i], "r": x["out"][0], "ref": ref}]
    c.decide("TraceFiles", sc, ev, timeout_s=20)


CHECKS["T02"] = t02
