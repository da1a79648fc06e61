"""C24: what a caller hands over is only looked at."""
import json
import cluster, codec
from vlib import HarnessError

ALG = """SPECIFICATION Spec
CONSTANTS N = %d
 Variant = "%s"
INVARIANTS Untouched Repeatable Function KeptSame
CHECK_DEADLOCK FALSE
"""
GEN = """SPECIFICATION Spec
CONSTANT Depth = %d
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
VARIANTS = ["sort", "fill", "scratch", "memo"]


def scenarios(c, types):
    q, rng, sc, sch = not c.thorough, c.rng, [], codec.schema()
    hist = {}
    for d in (2, 3):
        r = c.tlc("PureGen", GEN % d)
        hist[d] = [json.loads(p[4:].replace('\\"', '"')) for p in r.prints if p.startswith("GEN ")]
        if not hist[d]:
            raise HarnessError("PureGen produced nothing")
    pool = []

    def ops(n):
        out = []
        while len(out) < n:
            if not pool:
                pool.extend(rng.sample(hist[3], len(hist[3])))
            out += pool.pop()
        return out

    for t in types:
        hi = sch[t][1]
        for k in range(5 if q else 40):
            vs = [0, hi] if k == 0 else sorted(rng.choices(range(hi + 1), k=2))
            profs = [rng.choice([3, 3, 2, 5, 4] + list(codec.SQUARE)), rng.choice([3, 2, 1, 0])]
            sc.append({"kind": "msg", "ty": t, "vers": vs, "prof": profs, "seed": rng.getrandbits(40), "ops": ops(9), "buf": rng.choice([0, 0, 16, 64, 4096])})
    for k in range(300 if q else 3000):
        sc.append({"kind": "batch", "vers": sorted(rng.choices(range(4), k=2)), "prof": [rng.choice([0, 0, 1]), 0], "seed": rng.getrandbits(40),
                   "ops": [o for o in ops(15) if o["o"] != "decode"], "buf": rng.choice([0, 0, 16, 64, 4096])})
    for key, name, hi in cluster.apis():
        for k in range(2 if q else 12):
            sc.append({"kind": "send", "api": name, "key": key, "vers": [0, rng.randint(0, hi)], "prof": [rng.choice([3, 2, 5]), 3], "seed": rng.getrandbits(40),
                       "acks": rng.choice([0, 1, -1]), "ops": ops(6)})
    for k in range(150 if q else 1500):
        sc.append({"kind": "client", "seed": rng.getrandbits(40), "ops": ops(6), "vers": [0, 0], "prof": [0, 0]})
    for k in range(20 if q else 200):
        sc.append({"kind": "conn", "seed": rng.getrandbits(40), "ops": ops(6), "vers": [0, 0], "prof": [0, 0]})
    c.extra["spec_generated_histories"] = sum(len(h) for h in hist.values())
    return sc


def run(c):
    c.parallel([lambda: c.model("PureAlg", ALG % (4 if c.thorough else 3, "ok"), workers=4)]
               + [lambda v=v: c.model("PureAlg", ALG % (3, v), workers=2, expect_ok=False, count=False) for v in VARIANTS])
    c.log("design model checked (PureAlg), defective variants rejected:", *VARIANTS)
    types, gen = codec.registry(c)
    sc = codec.number(scenarios(c, types))
    items = execute(c, c.build("codecdrv", instr=(), files=gen), sc)
    judge(c, items, sc)
    if c.violations:
        return
    # the same values used by several goroutines at once
    par = [dict(s, par=3) for s in sc if s["kind"] in ("msg", "batch")]
    par = codec.number(c.rng.sample(par, min(len(par), 600 if not c.thorough else 5000)))
    items = execute(c, c.build("codecdrv", instr=(), race=True, files=gen), par, procs=4, gomaxprocs=3, async_off=False, env={"GORACE": "halt_on_error=1 exitcode=66"})
    c.extra["histories_under_race_detector"] = len(items)
    judge(c, items, par)
    c.assumptions += ["contents are compared by digest (SHA-1, 64 bits)", "a decoded value may share memory with the input; neither is written to"]


def execute(c, binary, sc, **kw):
    items, kinds = [], {}
    for s, r in zip(sc, c.run_driver(binary, "TestPure", sc, **kw)):
        if "skipped" in r or "hang" in r and kw:
            continue
        if "crash" in r or "hang" in r:
            c.violation("%s: %s" % ("crash or data race" if "crash" in r else "endless loop", (r.get("crash") or "")[:900]), {"scenario": s, "result": r})
        elif r["subj"] != "skip":
            items.append({"subj": r["subj"], "ev": r["ev"], "sid": s["id"]})
            kinds[s["kind"]] = kinds.get(s["kind"], 0) + 1
    c.log("recorded:", json.dumps(kinds))
    if not kw:
        c.extra["histories_by_kind"] = kinds
        for k in kinds:
            c.sample(next(i for i in items if sc[i["sid"]]["kind"] == k))
    return items


def judge(c, items, sc):
    for kind, i, rest in c.judge("PureTrace", items, deterministic=lambda x: len(x["ev"]) + 1, size=lambda x: len(x["ev"])):
        at = int(rest.split(" ")[0])
        s, e = sc[items[i]["sid"]], items[i]["ev"][at - 1]
        what = "something the caller owns was changed" if e["k"] == "op" and e["subj"] not in ("", items[i]["subj"]) else "a result is not what it was before"
        c.violation("%s: %s in %s" % (what, json.dumps(e), json.dumps(s)[:500]), {"scenario": s, "trace": items[i], "rejected_event": at})
