"""C03-C06, C08, C22 (and the framing part of C07): connections."""
import json
from vlib import HarnessError

ALG = """SPECIFICATION Spec
CONSTANTS NCalls = %d
 MaxResp = %d
 NClose = %d
 Variant = "%s"
 Kinds = {%s}
INVARIANTS Allowed QuietOK UniqueIds
%s
CHECK_DEADLOCK FALSE
"""
GEN = """SPECIFICATION Spec
CONSTANTS Depth = %d
 MaxCalls = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
BOTH = '"resp", "oneway"'
VARIANTS = {"C03": ["lateReg", "noDelete", "sameId", "dropTail"], "C04": ["sameId"], "C05": ["noFail", "dropTail"], "C06": ["noFail"],
            "C22": ["lateReg"], "C08": ["noDelete"], "C07": []}


def design(c):
    if c.thorough:
        jobs = [lambda: c.model("ConnAlg", ALG % (2, 2, 1, "ok", BOTH, ""), timeout=1500, heap="12g"),
                lambda: c.model("ConnAlg", ALG % (1, 2, 2, "ok", BOTH, ""), timeout=900, heap="6g"),
                lambda: c.model("ConnAlg", ALG % (3, 1, 0, "ok", '"resp"', ""), timeout=1500, heap="12g")]
        for j in jobs:
            j()
    jobs = [lambda: c.model("ConnAlg", ALG % (2, 1, 0, "ok", BOTH, ""), workers=4),
            lambda: c.model("ConnAlg", ALG % (1, 1, 1, "ok", BOTH, "PROPERTIES CallsEnd"), workers=4)]
    jobs += [lambda v=v: c.model("ConnAlg", ALG % (2, 2, 0, v, BOTH, ""), workers=2, expect_ok=False, count=False) for v in VARIANTS[c.pid]]
    c.parallel(jobs)
    c.log("design model checked (ConnAlg), defective variants rejected:", *VARIANTS[c.pid])


APIS = ["sasl", "sasl", "sync", "join", "meta", "hb", "ack1", "acka"]
FRAGS = [[], [], [1], [2], [3], [4], [5], [7, 1], [4, 4, 1000], [1000], [4096], [1, 3, 4, 9]]


def sched(rng, heavy=False):
    if heavy:
        return {"seed": rng.getrandbits(30), "p": rng.choice([0, 1e-5, 1e-4]), "long": 3}
    if rng.random() < 0.5:   # a few long delays, everything else at full speed
        return {"seed": 1, "at": sorted(rng.sample(range(1, rng.choice([60, 150, 400])), rng.choice([1, 1, 2, 3, 5]))), "long": 1500}
    return {"seed": rng.getrandbits(30), "p": rng.choice([0, 0.01, 0.05, 0.2, 0.5, 0.9]), "long": rng.choice([1, 1, 3, 20, 100])}


ACKS = ["ackb", "ackc", "ackd", "acke", "ackf"]


def size(rng):
    return rng.choice([9, 10, 12, 20, 40, 100, 250, 1000, 3000, 4090, 4096, 4100, 5000, 9000])


def pause(rng, steps):
    x = rng.random()
    if x < 0.5:
        steps.append({"op": "q"})
    elif x < 0.75:
        steps.append({"op": "y", "n": rng.randint(1, 40)})


def from_history(rng, hist):
    """A concrete script for an abstract environment history of ConnGen."""
    steps, always = [], rng.random() < 0.5
    for h in hist:
        o, n = h["o"], h["c"]
        st = {"op": None, "c": n, "n": size(rng), "frag": rng.choice(FRAGS)}
        if o == "resp":
            st.update(op="call", api=rng.choice(APIS))
        elif o == "oneway":
            st.update(op="call", api="ack0")
        elif o in ("answer", "dup"):
            st.update(op="resp")
        elif o == "garble":
            st.update(op="resp", bad=True)
        elif o == "part":
            st.update(op="part", cut=rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 1000000]))
        elif o == "rest":
            st.update(op="rest")
        elif o == "answereof":
            st.update(op="respeof", **{"with": rng.random() < 0.6, "bad": rng.random() < 0.3})
        elif o == "unknown":
            st.update(op="unk", id=rng.choice([0, -1, -2147483648, 77000000 + rng.randint(0, 1000)]), n=rng.choice([0, 1, 50, 5000]))
        elif o == "short":
            st.update(op="short", n=rng.choice([0, 1, 2, 3]))
        elif o == "eof":
            st.update(op="eof", **{"with": rng.random() < 0.5})
        elif o == "reset":
            st.update(op="reset")
        elif o == "fault":
            st.update(op="fault", n=rng.choice([0, 1, 3, 4, 5, 12, 30, 60, 200, 4000, 4096, 5000]))
        elif o == "stall":
            st.update(op="stall", n=rng.choice([0, 1, 4, 20, 100, 4096]))
        elif o == "unstall":
            st.update(op="unstall")
        elif o == "close":
            st.update(op="close", k=rng.choice([1, 1, 1, 2, 3]))
        steps.append(st)
        if o in ("resp", "oneway") and n and rng.random() < 0.5 and not always:
            continue
        if always:
            steps.append({"op": "q"})
        else:
            pause(rng, steps)
    return steps


def scenarios(c):
    q, rng, sc = not c.thorough, c.rng, []

    def add(fam, steps, heavy=False, start=0):
        sc.append({"id": len(sc), "fam": fam, "steps": steps, "sched": sched(rng, heavy), "start": start, "late": rng.choice([0, 0, 5, 300])})

    hist = []
    for d in ([3, 4, 5] if q else [3, 4, 5]):
        r = c.tlc("ConnGen", GEN % d)
        hs = [json.loads(p[4:].replace('\\"', '"')) for p in r.prints if p.startswith("GEN ")]
        if not hs:
            raise HarnessError("ConnGen produced nothing")
        k = {3: 300, 4: 700, 5: 700} if q and c.pid != "C07" else {3: 100, 4: 200, 5: 200} if q else {3: 10 ** 6, 4: 10 ** 6, 5: 12000}
        hist += rng.sample(hs, min(len(hs), k[d]))
    for h in hist:
        add("gen", from_history(rng, h))
    c.extra["spec_generated_histories"] = len(hist)

    for _ in range(150 if q else 1500):   # many concurrent calls, answers in any order
        steps, k, done = [], rng.randint(2, 14), 0
        for i in range(k):
            steps.append({"op": "call", "api": rng.choice(APIS + ["ack0"]), "n": size(rng)})
            if rng.random() < 0.2:
                pause(rng, steps)
            if rng.random() < 0.1:
                steps.append({"op": "resp", "c": rng.randint(1, i + 1), "n": size(rng), "frag": rng.choice(FRAGS)})
        pause(rng, steps)
        for i in rng.sample(range(1, k + 1), rng.randint(0, k)):
            steps.append({"op": "resp", "c": i, "n": size(rng), "frag": rng.choice(FRAGS), "bad": rng.random() < 0.08})
            if rng.random() < 0.3:
                pause(rng, steps)
            if rng.random() < 0.15:
                steps.append({"op": "resp", "c": rng.randint(1, k), "n": size(rng), "frag": rng.choice(FRAGS)})
            if rng.random() < 0.1:
                steps.append({"op": "unk", "id": 77000001, "n": rng.choice([0, 10, 3000])})
        x = rng.random()
        if x < 0.5:
            steps += [{"op": "q"}, {"op": "respall", "n": size(rng), "frag": rng.choice(FRAGS)}, {"op": "q"}]
        elif x < 0.6:
            steps.append({"op": "eof", "with": True})
        elif x < 0.8:
            steps += [{"op": "close", "k": rng.randint(1, 3)}]
        add("many", steps)
    for _ in range(250 if q else 2500):   # a peer that answers at once
        steps = [{"op": "auto", "n": size(rng), "frag": rng.choice(FRAGS)}]
        for i in range(rng.randint(1, 8)):
            steps.append({"op": "call", "api": rng.choice(APIS + ["ack0"]), "n": size(rng)})
            if rng.random() < 0.4:
                pause(rng, steps)
            if rng.random() < 0.1:
                steps.append({"op": "unk", "id": 77000001, "n": rng.choice([0, 10, 3000])})
        x = rng.random()
        if x < 0.3:
            steps.append({"op": "close", "k": rng.randint(1, 3)})
        elif x < 0.5:
            steps += [{"op": "noauto"}, {"op": "call", "api": "hb", "n": 3}, {"op": "q"}, {"op": "eof", "with": True}]
        elif x < 0.6:
            steps += [{"op": "noauto"}, {"op": "reset"}]
        add("auto", steps)
    for _ in range((120 if c.pid == "C22" else 20) if q else 800):    # produce with every kind of acks, next to other calls
        steps, k = [{"op": "auto", "n": 40, "frag": rng.choice(FRAGS)}] if rng.random() < 0.3 else [], rng.randint(1, 7)
        auto = bool(steps)
        for i in range(k):
            steps.append({"op": "call", "api": rng.choice(ACKS + ["ack0", "ack0", "ack1", "acka", "hb"]), "n": size(rng)})
            if rng.random() < 0.4:
                pause(rng, steps)
        steps.append({"op": "q"})
        if not auto:
            for i in rng.sample(range(1, k + 1), rng.randint(0, k)):
                steps.append({"op": "resp", "c": i, "n": size(rng)})
            steps.append({"op": "q"})
        if rng.random() < 0.3:
            steps.append(rng.choice([{"op": "close", "k": 1}, {"op": "eof", "with": True}, {"op": "reset"}]))
        add("acks", steps)
    for _ in range(60 if q else 600):     # Close in awkward states
        steps = []
        for _ in range(rng.randint(0, 3)):
            steps.append({"op": "call", "api": rng.choice(APIS + ["ack0"]), "n": size(rng)})
        pause(rng, steps)
        x = rng.choice(["idle", "part", "flood", "stall", "eof", "reset", "big"])
        if x == "part":
            steps.append({"op": "part", "c": 1, "n": size(rng), "cut": rng.randint(1, 40)})
        elif x == "flood":
            steps.append({"op": "flood", "k": rng.choice([50, 400]), "n": rng.choice([10, 1000, 30000])})
        elif x == "stall":
            steps += [{"op": "stall", "n": rng.choice([0, 1, 30, 5000])}] + [{"op": "call", "api": "sasl", "n": 9000} for _ in range(3)]
        elif x == "eof":
            steps.append({"op": "eof"})
        elif x == "reset":
            steps.append({"op": "reset"})
        elif x == "big":
            steps += [{"op": "unk", "id": -5, "n": 6000000}]
        if rng.random() < 0.6:
            pause(rng, steps)
        steps.append({"op": "close", "k": rng.randint(1, 4)})
        if rng.random() < 0.5:
            steps.append({"op": "call", "api": rng.choice(APIS), "n": 20})
        add("close", steps, heavy=x in ("flood", "big"))
    for _ in range(30 if q else 200):     # correlation ids around the wrap
        steps = []
        for i in range(6):
            steps.append({"op": "call", "api": rng.choice(APIS), "n": 20})
            pause(rng, steps)
            steps.append({"op": "resp", "c": rng.randint(1, i + 1), "n": 30})
        steps += [{"op": "q"}, {"op": "respall", "n": 30}, {"op": "q"}]
        add("wrap", steps, start=rng.choice([2 ** 31 - 4, -3, 65533, 32765, 253, 2 ** 24 - 3]))
    for j in [2 ** 8, 2 ** 12, 2 ** 15, 2 ** 16, 2 ** 20, 2 ** 24, 2 ** 30, 2 ** 31 - 10] * (2 if q else 10):   # an old call is still outstanding much later
        steps = [{"op": "call", "api": "join", "n": 20}, {"op": "call", "api": "sasl", "n": 20}, {"op": "q"}, {"op": "jump", "n": j - rng.randint(1, 4)}]
        for i in range(6):
            steps += [{"op": "call", "api": rng.choice(APIS), "n": 20}, {"op": "q"}, {"op": "resp", "c": 3 + i, "n": 30}, {"op": "q"}]
        steps += [{"op": "respall", "n": 30}, {"op": "q"}]
        add("old", steps)
    for k in [300]:                       # the same with calls actually made
        steps = [{"op": "call", "api": "join", "n": 20}, {"op": "q"}, {"op": "auto", "n": 12}]
        for i in range(k):
            steps += [{"op": "call", "api": "hb", "n": i}]
            if i % 20 == 0:
                steps += [{"op": "q"}]
        steps += [{"op": "q"}, {"op": "noauto"}, {"op": "respall", "n": 30}, {"op": "q"}]
        add("oldcalls", steps, heavy=True)
    for k in ([33, 65, 140] if q else [17, 31, 33, 64, 65, 129, 140, 257, 400]):    # a crowd of calls at once
        for end in ["answers", "eof", "close", "reset", "mixed"]:
            steps = []
            for i in range(k):
                steps.append({"op": "call", "api": rng.choice(["hb", "hb", "sasl", "ack1", "ack0"]), "n": rng.choice([9, 20, 60])})
                if i % 16 == 15 and rng.random() < 0.3:
                    steps.append({"op": "q"})
            steps.append({"op": "q"})
            if end in ("answers", "mixed"):
                order = list(range(1, k + 1))
                if rng.random() < 0.5:
                    rng.shuffle(order)
                else:
                    order.reverse()
                for i in order[:k if end == "answers" else k // 2]:
                    steps.append({"op": "resp", "c": i, "n": rng.choice([9, 20])})
                steps.append({"op": "q"})
            if end != "answers":
                steps.append({"eof": {"op": "eof"}, "close": {"op": "close", "k": 2}, "reset": {"op": "reset"}, "mixed": {"op": "eof", "with": True}}[end])
            add("crowd", steps, heavy=rng.random() < 0.5)
    if c.pid != "C07":                    # one long delay, at every point in turn, of short scripts
        ends = {"eof": [{"op": "eof"}], "eofwith": [{"op": "eof", "with": True}], "reset": [{"op": "reset"}], "close": [{"op": "close", "k": 1}],
                "close2": [{"op": "close", "k": 2}], "answereof": [{"op": "resp", "c": 1, "n": 20}, {"op": "eof"}],
                "answerclose": [{"op": "resp", "c": 1, "n": 20}, {"op": "close", "k": 1}],
                "respeof": [{"op": "respeof", "c": 1, "n": 20, "with": True}], "answers": [{"op": "resp", "c": 2, "n": 20}, {"op": "resp", "c": 1, "n": 20}, {"op": "q"}]}
        for name, end in sorted(ends.items()):
            for k in ([1, 3] if q else [1, 2, 3, 5]):
                for at in range(1, (90 if k == 1 else 160) if q else 60 + 60 * k):
                    if q and k == 3 and rng.random() < 0.5:
                        continue
                    steps = [{"op": "call", "api": rng.choice(["hb", "sasl", "ack1"] if i < 2 else ["hb", "sasl", "ack1", "ack0"]), "n": 20} for i in range(max(k, 2 if name == "answers" else 1))]
                    if rng.random() < 0.3:
                        steps.append({"op": "y", "n": rng.randint(1, 30)})
                    add("sweep", steps + end)
                    sc[-1]["sched"] = {"seed": 1, "at": [at] if q or rng.random() < 0.5 else [at, at + rng.randint(1, 60)], "long": rng.choice([300, 1500])}
    for _ in range(20 if q else 100):     # requests that cannot be encoded
        steps = [{"op": "call", "api": "hb", "n": 1}]
        pause(rng, steps)
        steps.append({"op": "call", "api": "hb", "bad": True})
        pause(rng, steps)
        steps += [{"op": "call", "api": "hb", "n": 1}, {"op": "respall", "n": 9}, {"op": "q"}, {"op": "respall", "n": 9}]
        add("badreq", steps)
    # large responses: beyond the 2MB read buffer and the 5MB ring, and many that wrap the ring
    big = [[1999990], [2000000, 30], [2000001], [4999990, 100], [5000010], [900000] * 8, [1700000, 20, 1700000, 20, 1700000, 30], [2500000, 2500000, 2500000]]
    if not q:
        big += [[7000000], [11000000, 11000000], [333333] * 40, [4194304, 1, 4194304], [1250000] * 9]
    for b in big:
        steps = []
        for i, n in enumerate(b):
            steps.append({"op": "call", "api": rng.choice(["sasl", "sync", "join"]), "n": 40})
        steps.append({"op": "q"})
        for i, n in enumerate(b):
            steps.append({"op": "resp", "c": i + 1, "n": max(9, n), "frag": rng.choice([[], [65536], [1460], [2000000]])})
            if rng.random() < 0.3:
                steps.append({"op": "q"})
        steps += [{"op": "q"}, {"op": "kept"}]
        add("big", steps, heavy=True)
    # many responses are kept while others of the same and of other sizes arrive
    for base in ([100, 4000, 20000, 70000, 300000] if q else [9, 100, 1000, 4000, 8000, 20000, 70000, 140000, 300000, 600000]):
        k, steps = max(4, min(70, 3000000 // base)), []
        for i in range(k):
            steps += [{"op": "call", "api": rng.choice(["sasl", "sync", "join"]), "n": 20}]
            if i % 8 == 7 or i == k - 1:
                steps += [{"op": "q"}] + [{"op": "resp", "c": j + 1, "n": max(9, base + rng.choice([-base // 3, 0, 0, 1, base // 3]))} for j in range(i - i % 8, i + 1)] + [{"op": "q"}]
        steps += [{"op": "kept"}, {"op": "close", "k": 1}, {"op": "kept"}]
        add("keep", steps, heavy=True)
    for n in [100000, 1000000, 3000000]:  # large requests
        add("bigreq", [{"op": "call", "api": a, "n": n + i} for i, a in enumerate(["sasl", "ack0", "sync"])] + [{"op": "q"}, {"op": "respall", "n": 30}, {"op": "q"}], heavy=True)
    for _ in range((400 if c.pid == "C07" else 60) if q else 2000):     # broken framing
        steps = [{"op": "call", "api": "hb", "n": 3}]
        if rng.random() < 0.7:
            steps.append({"op": "q"})
        kind = rng.choice(["neg", "min", "huge", "max", "rand", "hugepart", "zero", "big64"])
        h = {"neg": [255, 255, 255, rng.randint(0, 255)], "min": [128, 0, 0, 0], "huge": [64, 0, 0, 0], "max": [127, 255, 255, 255],
             "rand": [rng.getrandbits(8) for _ in range(rng.randint(1, 60))], "hugepart": [0x7f, 0, 0, 0] + [7] * 500, "zero": [0] * rng.randint(1, 40),
             "big64": [4, 0, 0, 0] + [0] * 30}[kind]
        steps.append({"op": "mangle", "hex": h, "frag": rng.choice(FRAGS)})
        pause(rng, steps)
        if rng.random() < 0.3:
            steps.append({"op": "unk", "id": -7, "n": 3000000})
        x = rng.random()
        if x < 0.4:
            steps.append({"op": "eof", "with": rng.random() < 0.5})
        elif x < 0.6:
            steps.append({"op": "reset"})
        elif x < 0.8:
            steps.append({"op": "close", "k": 2})
        else:
            steps.append({"op": "resp", "c": 1, "n": 9})
        add("mangle", steps, heavy=True)
    return sc


def run(c):
    design(c)
    sc = scenarios(c)
    binary = c.build("conndrv")
    c.log("driver built, %d scenarios" % len(sc))
    res = c.run_driver(binary, "TestConn", sc, hang=40)
    items = []
    for s, r in zip(sc, res):
        if "skipped" in r:
            continue
        if "crash" in r:
            c.violation("the process crashed: %s" % r["crash"][:700], {"scenario": s, "result": r})
        elif "hang" in r:
            c.violation("the library loops without making progress", {"scenario": s, "result": r})
        else:
            items.append({"ev": r["ev"], "sid": s["id"]})
    c.log("%d traces" % len(items))
    judge(c, items, sc)
    for f in ("gen", "many", "close"):
        c.sample(next(x for x in items if sc[x["sid"]]["fam"] == f)) if any(sc[x["sid"]]["fam"] == f for x in items) else None
    fams = {}
    for x in items:
        fams[sc[x["sid"]]["fam"]] = fams.get(sc[x["sid"]]["fam"], 0) + 1
    c.extra["scenario_families"] = fams
    if not c.violations:
        race(c)
    c.assumptions += ["the in-memory transport stands for a TCP socket (DialHook, build tag verif)",
                      "preemption at statement boundaries on one processor; true parallelism is covered by the race-detector runs over loopback TCP"]


def judge(c, items, sc):
    own, others = c.judge_own("ConnTrace", items, deterministic=lambda x: len(x["ev"]) + 1, size=lambda x: len(x["ev"]))
    for _, i, rest in others[:10]:
        c.log("note: a %s violation was seen" % rest)
    for kind, i, rest in own:
        at = int(rest.split(" ")[0])
        e = items[i]["ev"][at - 1]
        c.violation("event %d %s is not allowed after %s" % (at, json.dumps(e), json.dumps(items[i]["ev"][:at - 1])[-900:]),
                    {"scenario": sc[items[i]["sid"]], "trace": items[i], "rejected_event": at})


def race(c):
    """The same calls over loopback TCP, in parallel, under the race detector."""
    rng = c.rng
    sc = [{"id": i, "calls": rng.choice([2, 4, 8, 16]), "rounds": rng.choice([5, 20]), "close": rng.choice([0, 0, 1, 2]), "oneway": rng.random() < 0.5,
           "frag": rng.choice([0, 0, 1, 7, 1000]), "size": rng.choice([9, 100, 5000, 100000]), "seed": rng.getrandbits(30)} for i in range(12 if not c.thorough else 100)]
    binary = c.build("conndrv", instr=(), race=True)
    res = c.run_driver(binary, "TestConnRace", sc, procs=4, gomaxprocs=4, async_off=False, hang=30, confirm="ignore-hang", env={"GORACE": "halt_on_error=1 exitcode=66"})
    n = 0
    for s, r in zip(sc, res):
        if "skipped" in r or "hang" in r:
            continue
        if "crash" in r:
            c.violation("crash or data race with parallel calls: %s" % r["crash"][:900], {"scenario": s, "result": r})
            continue
        n += r["calls"]
        if r["wrong"] and c.pid in ("C03", "C08"):
            c.violation("%d calls in parallel over TCP got a response that is not theirs: %s" % (s["calls"], r["wrong"][:3]), {"scenario": s, "result": r})
        if r["stray"] and c.pid == "C04":
            c.violation("the peer received bytes that are no frame: %s" % r["stray"], {"scenario": s, "result": r})
    c.extra["parallel_calls_under_race_detector"] = n
