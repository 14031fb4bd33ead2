"""Experiences enumerated by TLC from the authoring machine (spec/Author.tla)."""
import json, os
import vlib

BASE = {"maxPerc": 1, "maxChan": 1, "maxBand": 1, "maxFx": 2, "maxKf": 2, "bands": [0, 1, 2, 3], "kinds": [0, 1, 2],
        "positions": [0, 40, 90], "offsets": [0, 15], "amps": [10000, -5000], "overlap": False, "library": True,
        "ids": False, "partial": False, "blk": 16}
DOMAINS = {
    "file": dict(BASE, partial=True),
    "file_wide": dict(BASE, maxPerc=2, maxChan=2, maxBand=3, maxFx=3, maxKf=1, kinds=[0, 1], positions=[0, 40],
                      offsets=[0], amps=[10000], partial=True),
}


def enumerate_domain(c, params):
    p = os.path.join(c.wd, "params.json")
    json.dump(params, open(p, "w"))
    rc, out = vlib.tlc("Author", {"PARAMS": p}, c.wd, heap="4g", workers="4")
    if rc != 0 or "No error has been found" not in out:
        raise vlib.CheckError("Author model: " + out[-2000:])
    res = []
    for line in out.splitlines():
        if line.startswith('"EXP'):
            res.append(json.loads(json.loads(line)[3:]))
    res.sort(key=lambda h: json.dumps(h, sort_keys=True))
    return res


def experiences(c, *names, limit=None):
    out = []
    for n in names:
        es = enumerate_domain(c, DOMAINS[n] if isinstance(n, str) else n)
        c.cov["authored_%s" % (n if isinstance(n, str) else "custom")] = len(es)
        if limit and len(es) > limit:
            es = c.rng.sample(es, limit)
        out += es
    return out
