"""C01, C02: the ring buffer."""
import json
from vlib import HarnessError

ALG = """SPECIFICATION Spec
CONSTANTS Size = %d
 MaxTotal = %d
 MaxOp = %d
 Variant = "%s"
 WithClose = TRUE
INVARIANTS Fifo QuietOK
PROPERTIES %s
CHECK_DEADLOCK FALSE
"""
MAP = """SPECIFICATION Spec
CONSTANTS Size = %d
 MaxTotal = %d
 MaxOp = %d
 Variant = "ok"
 WithClose = TRUE
 Nat <- Small
INVARIANTS IndInv
PROPERTIES Mapped
CHECK_DEADLOCK FALSE
"""
GEN = """SPECIFICATION GSpec
CONSTANTS Size = %d
 Depth = %d
 Sizes = {%s}
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""


def design(c, prop):
    q = not c.thorough
    variants = ["stale", "wstale", "noclose"] if prop == "C01" else ["lost", "onebyte"]
    jobs = [lambda: c.model("RingAlg", ALG % (2, 3 if q else 4, 3, "ok", "RingStep"), workers=4),
            lambda: c.model("RingAlg", ALG % (3, 4 if q else 5, 4, "ok", "RingStep"), workers=4)]
    if prop == "C02":
        jobs.append(lambda: c.model("RingAlg", ALG % (2, 3, 2, "ok", "ReadLive WriteLive CloseLiveR CloseLiveW"), workers=4))
        if not q:
            jobs.append(lambda: c.model("RingAlg", ALG % (3, 4, 3, "ok", "ReadLive WriteLive CloseLiveR CloseLiveW"), workers=4, timeout=1500))
    jobs += [lambda v=v: c.model("RingAlg", ALG % (2, 4, 4, v, "RingStep"), workers=2, expect_ok=False, count=False) for v in variants]
    # any size, any number of bytes, any sequence of operations: RingInd's invariant is inductive and implies the property
    ind = lambda cinit, init, n, inv, ok=True: lambda: c.apalache("RingInd", ["--cinit=" + cinit, "--init=" + init, "--length=%d" % n, "--inv=" + inv], ok)
    proof = [ind("ConstInit", "Init", 0, "Inv"), ind("ConstInit", "IndInit", 1, "Inv"), ind("ConstInit", "IndInit", 0, "Safe"), ind("ConstInit", "IndInit", 0, "Nobody", False)]
    proof += [ind("Bad" + v.capitalize(), "IndInit", 1, "Inv", False) for v in variants]
    # and RingAlg implements RingInd, in small constants
    jobs.append(lambda: c.model("RingMap", MAP % ((2, 3, 3) if q else (3, 4, 4)), workers=2))
    done = c.parallel(proof + jobs)[:len(proof)]
    c.extra["inductive_for_every_size"] = all(done)
    c.log("design model checked (RingAlg), defective variants rejected:", *variants)


def scenarios(c):
    """Scenarios: all macro-step behaviours of RingGen in small constants, plus seeded
    free-running reader/writer programs under controlled schedules."""
    q = not c.thorough
    rng = c.rng
    gens = [(2, 4, (0, 1, 2, 3)), (3, 4, (1, 2, 3, 5)), (4, 4, (1, 3, 4, 6))]
    if not q:
        gens += [(2, 5, (1, 2, 3)), (3, 5, (1, 2, 3, 4)), (5, 5, (1, 4, 5, 7))]
    outs = c.parallel([lambda g=g: (g[0], c.tlc("RingGen", GEN % (g[0], g[1], ", ".join(map(str, g[2]))))) for g in gens])
    sc = []
    for size, r in outs:
        hists = [json.loads(p[4:].replace('\\"', '"')) for p in r.prints if p.startswith("GEN ")]
        if not hists:
            raise HarnessError("RingGen produced nothing")
        if q and len(hists) > 700:
            hists = rng.sample(hists, 700)
        for h in hists:
            sc.append({"size": size, "ops": h, "sched": "rand", "n": 2, "seed": rng.getrandbits(30)})
    macro = len(sc)
    # all schedules with up to two preemptions for tiny programs
    tiny = [(2, [1], [1]), (2, [2], [2]), (2, [1, 1], [1, 1]), (2, [3], [3]), (3, [3], [1, 2]), (3, [1, 2], [3]), (3, [4], [4]),
            (2, [1, 2], [2, 1]), (4, [3, 1], [1, 3]), (3, [2, 0, 2], [1, 0, 3])]
    for size, w, r in tiny:
        for close in (False, True):
            sc.append({"size": size, "w": w, "r": r, "close": close, "sched": "sweep", "n": 1200 if q else 20000, "seed": rng.getrandbits(30)})
    for i in range(120 if q else 900):
        size = rng.choice([2, 2, 3, 3, 4, 5, 7, 8, 16])
        big = rng.random() < 0.15

        def part(total):
            out = []
            while total > 0:
                n = rng.choice([0, 1, 1, 2, size - 1, size, size + 1, rng.randint(1, 2 * size + 1)])
                n = min(n, total)
                total -= n
                out.append(n)
            return out
        total = rng.randint(1, 200 if big else 5 * size)
        w = part(total)
        r = part(max(1, total + rng.choice([0, 0, 0, -1, 1, -size, size])))
        sc.append({"size": size, "w": w, "r": r, "close": rng.random() < 0.5, "sched": "rand", "n": 60 if q else 400, "seed": rng.getrandbits(30)})
    # long streams through larger buffers, wrapping many times
    for size in ([64, 257, 1000] if q else [64, 65, 257, 1000, 1024, 4096]):
        for _ in range(2):
            total = size * 12 + rng.randint(0, 50)
            w, r, a, b = [], [], total, total
            while a > 0:
                n = min(a, rng.choice([1, size // 2, size - 1, size, size + 1, rng.randint(1, 3 * size)]))
                w.append(n)
                a -= n
            while b > 0:
                n = min(b, rng.choice([1, 4, size // 2, size, rng.randint(1, 3 * size)]))
                r.append(n)
                b -= n
            sc.append({"size": size, "w": w, "r": r, "close": False, "sched": "rand", "n": 3 if q else 12, "seed": rng.getrandbits(30)})
    # beyond what fits 15 or 16 bits
    for size in ([33000, 66000] if q else [32768, 33000, 65536, 66000, 200000]):
        w, r, a, b = [], [], int(size * 2.3), int(size * 2.3)
        while a > 0:
            n = min(a, rng.choice([size // 3, size - 1, size + 5, rng.randint(1, size)]))
            w.append(n)
            a -= n
        while b > 0:
            n = min(b, rng.choice([size // 4, size // 3, rng.randint(1, size // 2)]))
            r.append(n)
            b -= n
        sc.append({"size": size, "w": w, "r": r, "close": False, "sched": "rand", "n": 1, "seed": rng.getrandbits(30)})
    for i, s in enumerate(sc):
        s["id"] = i
    c.extra["spec_generated_histories"] = macro
    return sc


def parallel_runs(c):
    """Reader and writer in parallel on several processors under the race detector."""
    rng, sc = c.rng, []
    for i in range(24 if not c.thorough else 120):
        size = rng.choice([2, 3, 5, 8, 64, 257])
        w, r, a = [], [], size * rng.randint(3, 12)
        b = a
        while a > 0:
            n = min(a, rng.choice([1, size - 1, size, rng.randint(1, 2 * size)]))
            w.append(n)
            a -= n
        while b > 0:
            n = min(b, rng.choice([1, size - 1, size, rng.randint(1, 2 * size)]))
            r.append(n)
            b -= n
        sc.append({"id": i, "size": size, "w": w, "r": r, "close": rng.random() < 0.4, "n": 6, "seed": 1})
    binary = c.build("ringdrv", instr=(), race=True)
    res = c.run_driver(binary, "TestRingFree", sc, procs=4, gomaxprocs=3, async_off=False, hang=10, confirm="ignore-hang", env={"GORACE": "halt_on_error=1 exitcode=66"})
    return sc, res


def run(c):
    design(c, c.pid)
    sc = scenarios(c)
    binary = c.build("ringdrv", instr=("ring",))
    c.log("driver built, %d scenarios" % len(sc))
    decide(c, sc, c.run_driver(binary, "TestRing", sc))
    if not c.violations:
        decide(c, *parallel_runs(c))
    c.assumptions += ["preemption points are statements, on one processor; parallel executions are covered by the race-detector runs"]


def decide(c, sc, res):
    items, runs = [], 0
    for n, (s, r) in enumerate(zip(sc, res)):
        if "skipped" in r:
            continue
        if "hang" in r and c.pid == "C01":
            continue  # C02
        if "crash" in r or "hang" in r:
            kind = "crash" if "crash" in r else "hang"
            c.violation("ring buffer %s: %s" % (kind, (r.get("crash") or "")[:600]), {"scenario": s, "result": r})
            continue
        runs += r["runs"]
        for ev in r["traces"]:
            items.append({"size": r["size"], "ev": ev, "sid": n})
    c.log("%d executions, %d distinct traces" % (runs, len(items)))
    c.extra["executions"] = c.extra.get("executions", 0) + runs
    # C01 looks at what is delivered and what is lost, C02 also at who is left waiting
    cfg = "SPECIFICATION TraceSpec\nCONSTANT JudgeQuiet = %s\nINVARIANTS Accepted Inv\nCHECK_DEADLOCK FALSE\n" % ("TRUE" if c.pid == "C02" else "FALSE")
    bad = c.judge("RingTrace", items, cfg=cfg, deterministic=lambda x: len(x["ev"]) + 1, size=lambda x: len(x["ev"]) + sum(len(e.get("data", ())) for e in x["ev"]) / 20)
    for s in items[:2] + items[len(items) // 2:len(items) // 2 + 1]:
        c.sample(s)
    for kind, i, rest in bad:
        at = int(rest)
        e = items[i]["ev"][at - 1]
        if c.pid == "C02" and e["k"] in ("rr", "rw") and e.get("ok", True):
            continue  # wrong content: C01
        c.violation("ring of size %d: event %d %s is not allowed after %s" % (items[i]["size"], at, json.dumps(e), json.dumps(items[i]["ev"][:at - 1])[-600:]),
                    {"scenario": sc[items[i]["sid"]], "trace": items[i], "rejected_event": at})
